"""C21: a terminal session gives the same results and marks the right error position."""
import os, pty, re, select, struct, subprocess, fcntl, termios, time
import c19, gen, ref, sess, vf
from common import *
from model import Model

FAILING = ['1/0', 'sqrt(-1)', '(-2)^0.5', '@99', '0^0', 'root(-8, 3)', '3/(2-2)', 'sqrt(1-sqrt(5))', '0^(-1)', '@(50+1)', '5/(0*3)', 'root(1-3,2)', '(1-1)^0', '1/sum()']
CONFIRM = {'def': rb'Added (function|constant)\.( Note: [^\n]*)?\n', 'clear': rb'[A-Z][^\n]*cleared\n', 'undef': rb'(Function|Constant) removed\n', 'rules': rb'Successfully loaded [^\n]*\n'}
MARK_RIGHT = re.compile(rb'( *)\^(~*) ([^\s~^].*)\n', re.S)
MARK_LEFT = re.compile(rb'( *)(\S.*?) (~*)\^\n', re.S)
ANSI = re.compile(rb'\x1b\[[0-9;]*m')
BOX = re.compile('[─│┌┐└┘├┤┬┴┼═║╔╗╚╝╠╣╦╩╬╒╓╕╖╘╙╛╜╞╟╡╢╤╥╧╨╪╫]')


def marker(err, msg):
    """(column, length) of the marker in a terminal message, given the message as printed into a pipe"""
    msg = msg.rstrip(b'\n')
    if not msg or err.count(msg) != 1 or not err.endswith(b'\n') or err.count(b'\n') != 1:
        return None
    a, z = err[:-1].split(msg)
    if z == b'':  # right of the marker
        m = re.fullmatch(rb'( *)\^(~*) ', a)
        return (len(m.group(1)), 1 + len(m.group(2))) if m else None
    m = re.fullmatch(rb' (~*)\^', z)
    if not m or a.strip(b' '):
        return None
    return len(a) + len(msg) + 1, 1 + len(m.group(1))


def rows(out):
    t = BOX.sub(' ', ANSI.sub(b'', out).decode('utf-8', 'replace'))
    return [l.split() for l in t.split('\n') if l.strip()]


def kind(line):
    if line == '' or line[0] == '#':
        return 'nothing'
    if line in ('help', 'help operators', 'license'):
        return 'text'
    if line.startswith('table '):
        return 'table'
    if '=' in line:
        return 'def'
    if line == 'clear':
        return 'clear'
    if line.startswith('clear '):
        return 'undef'
    if line.startswith('load simplification '):
        return 'rules'
    if line.startswith('load '):
        return 'load'
    return 'eval'


def same_step(line, p, t):
    """p, t: what the command printed in a pipe and on a terminal. Message if they differ in more than what a terminal adds"""
    (po, pe), (to, te) = p, t
    k = kind(line)
    if bool(pe) != bool(te):
        return 'fails only in one of them: %r, %r' % (pe[:200], te[:200])
    if te != pe and marker(te, pe) is None:
        return 'error message %r, on a terminal %r' % (pe[:200], te[:300])
    if k in ('nothing', 'text', 'load'):
        return None if po == to else 'prints %r, on a terminal %r' % (po[:200], to[:200])
    if pe:
        return None if po == to == b'' else 'prints %r and %r besides an error' % (po[:200], to[:200])
    if k == 'eval':
        return None if to == b'= ' + po else 'prints %r, on a terminal %r' % (po[:200], to[:200])
    if k == 'table':
        pf, tf = po.split(b'Fold result: '), to.split(b'Fold result: ')
        if pf[1:] != tf[1:]:
            return 'fold result %r, on a terminal %r' % (pf[1:], tf[1:])
        pr, tr = rows(pf[0]), rows(tf[0])
        if len(tr) != len(pr) + 1:
            return '%d table rows, on a terminal %d besides the header' % (len(pr), len(tr) - 1)
        for i, (x, y) in enumerate(zip(pr, tr[1:])):
            if y != [str(i + 1)] + x:
                return 'table row %r, on a terminal %r' % (x, y)
        return None
    if po != b'' or not re.fullmatch(CONFIRM[k], to):
        return 'prints %r, on a terminal %r' % (po[:200], to[:200])
    if k == 'def':
        m = re.search(r'[({]\s*(.?)', line.split('=')[0])
        if to.startswith(b'Added function') != bool(m and m.group(1) not in ')}') or b'Note' in to and not m:
            return 'is confirmed by %r' % to
    return None


# ---------------------------------------------------------------- where the marker belongs
def expand(t, defs):
    """User functions replaced; what comes from a definition is attributed to the call"""
    if t.k != 'o':
        return t
    c = [expand(x, defs) for x in t.c]
    if t.x[0] == 'f' and t.x[1:] in defs:
        params, body, _ = defs[t.x[1:]]
        env = dict(zip(params, c))

        def inst(b):
            if b.k == 'v' and b.x in env:
                return env[b.x]
            return ref.Node(b.k, b.x, [inst(x) for x in b.c], t.t)
        return inst(body)
    return ref.Node('o', t.x, c, t.t)


class Open(Exception):
    pass


def failing(t, hist, derivs, res):
    """Collects (token, kind) of operators whose operands are known but that have no value"""
    if t.k != 'o':
        return
    for c in t.c:
        failing(c, hist, derivs, res)
    if t.vars():
        return
    if t.x == 'frand':
        raise Open
    if t.x in ("q'", 'fderiv'):
        if derivs:
            raise Open
        res.add((t.t, 'deriv'))
        return
    if t.ops() & {"q'", 'fderiv'}:
        return
    if hist is None or (any(h is None for h in hist) and t.x in ('fans', 'p@')):
        raise Open
    if any(h is None for h in hist or ()) and t.ops() & {'fans', 'p@'}:
        raise Open
    v = ref.stable_eval(t, None, hist)
    if v[0] in ('unstable', 'unknown'):
        raise Open
    if v[0] != 'val' and all(ref.stable_eval(c, None, hist)[0] == 'val' for c in t.c):
        res.add((t.t, v[1]))


def locate(text, m, extra=None, rules=False):
    """('ok', tree) | ('at', {(column, length, kind)}) | None if not determined; columns relative to the text"""
    toks = ref.tokenize(text)

    def span(i):
        return (sum(map(len, toks[:i])), len(toks[i]) if i < len(toks) else 1)
    try:
        t = m.parse(text, extra)
    except ref.Reject as e:
        return 'at', {span(e.token) + ('syntax',)}
    if rules and m.uses(t):
        return None
    if any(not m.defs[n][2] for n in m.uses(t)):
        return None
    res = set()
    try:
        failing(expand(t, m.defs), m.history(), rules, res)
    except Open:
        return None
    if res:
        return 'at', {span(i) + (k,) for i, k in res}
    return None if rules else ('ok', t)  # with rules, rewriting may still lead to something without a value


def locate_line(line, m, rules):
    """None: not determined, 'none': no marker (accepted or refused as a whole), or a set of (column, length, kind)"""
    k = kind(line)
    if k == 'eval':
        w = locate(line, m, rules=rules)
        return None if w is None else 'none' if w[0] == 'ok' else w[1]
    if k == 'undef':
        if line[6:] in m.funcs():
            return 'none'
        return {(6, max(1, len(line) - 6), 'clear')}
    if k == 'def':
        left, right = line.split('=', 1)
        whole = {(0, max(1, len(left)), 'def')}
        toks = [t for t in ref.tokenize(left) if not t.startswith(' ')]
        if not toks or toks[0][0] not in ref.LETTERS:
            return whole
        name = toks[0]
        if name in m.funcs():
            return 'none'
        try:
            lt = m.parse(left, {name: 0 if len(toks) == 1 else None})
        except ref.Reject as e:
            all_ = ref.tokenize(left)
            return {(sum(map(len, all_[:e.token])), len(all_[e.token]) if e.token < len(all_) else 1, 'syntax')}
        ps = [c.x for c in lt.c if c.k == 'v' and c.x[0] != '[']
        if lt.k != 'o' or lt.x[0] != 'f' or len(ps) < len(lt.c) or len(set(ps)) < len(ps) or len(ps) > 10:
            return whole
        if lt.x != 'f' + name:
            return None
        w = locate(right, m, {name: len(ps)}, rules)
        if w is None:
            return None
        if w[0] == 'at':
            return {(len(left) + 1 + c, l, q) for c, l, q in w[1]}
        return 'none'
    return None


# ---------------------------------------------------------------- workload
def pad(r, s):
    """Moves the error to the right, so that the message has room left of it"""
    k = r.random()
    if k < 0.4:
        return s
    if k < 0.6:
        return ' ' * r.choice((1, 2, 5, 20, 33, 34, 35, 50)) + s
    pre = r.choice(['1+', 'x*', '(2+3)*', 'sin(1) + ', 'foo - ', '2  ^ ', '- ', 'max(1,2) * ', '1 000 + '])
    n = r.choice((1, 2, 5, 12))
    return (pre + ' ' * r.choice((0, 0, 1, 3))) * n + s


def broken(r, g):
    """An expression that is malformed or fails; or neither, by luck"""
    e = g.gen(vars=r.choice([(), (), ('x',), ('x', 'y')]))
    k = r.random()
    if k < 0.3:
        s = gen.mutate(r, e.expr(r.randint(1, 7)))
    elif k < 0.4:
        s = e.expr(r.randint(1, 7))
        s = s[:r.randint(0, len(s))]
    elif k < 0.5:
        s = gen.token_soup(r, r.randint(1, 8))
    elif k < 0.6:
        s = e.expr(r.randint(1, 4)) + r.choice([' )', '(', ' +', ',', ' ^', '~', ' sin', ' 2 ?', ' max', '!!', "' '", ' mod', 'C', ' foo ]', '@'])
    elif k < 0.65 and g.defs:
        n, a = r.choice(list(g.defs.items()))
        s = e.expr(2) + '+' + n + r.choice(['', ' 2', '(%s)' % ','.join(['3'] * (a + 1)), '(%s)' % ','.join(['3'] * max(0, a - 1)), '(3', '(,)'])
    else:
        f = r.choice(FAILING)
        if r.random() < 0.3 and g.defs:
            n, a = r.choice(list(g.defs.items()))
            f = n + ('(%s)' % ', '.join(r.choice(['0', '1', '2-2', '-1', '3', f]) for _ in range(a)) if a else '')
        s = e.expr(r.randint(1, 4)) + r.choice([' + ', '*', ' - ', '/', '  +  ']) + r.choice(['(%s)', '%s', '( %s )', 'abs(%s)', 'max(3, %s, 2)', '{%s}', '-(%s)', '(2+%s)!']) .replace('%s', f)
        if r.random() < 0.5:
            s += r.choice(['+', ' * ', '^']) + e.expr(1)
    return pad(r, s.replace('\n', '').replace('\0', ''))


def command(r, g):
    k = r.random()
    if k < 0.18:
        return g.definition()
    if k < 0.26:
        return g.value()
    if k < 0.32:
        return g.symbolic()
    if k < 0.38:
        # functions that fail for certain arguments
        free = [n for n in g.names if n not in g.defs]
        if free:
            n = r.choice(free)
            body = r.choice(['1/%s', '2 + 3*sqrt(%s)', '%s^0.5 - 1', '1 + 2/(%s+1)', '10/(3-%s)', '(1+2*(3+%s^-1))', 'root(%s, 2)', '@%s'])
            g.defs[n] = 1
            v = r.choice(['x', 'q', 'foo'])
            return n + '(' + v + ') = ' + body.replace('%s', v)
    if k < 0.47:
        m = r.choice(g.names)
        return r.choice(['%s(x) = ', '%s (x , y)=', ' %s =', '%s()= ', '   %s(x,  y, z)  =   ', '%s(q)=x*']).replace('%s', m) + broken(r, g)
    if k < 0.53:
        m = r.choice(g.names)
        return r.choice(['%s(x, x) = 1', '%s(2) = 3', '%s + 1 = 2', '  %s(x)(y) = 2', '%s(x = 3', '%s(x,) = 3', '%s x = 3', '3 = 4', '  = 3', '=', '(%s) = 3', '%s(sin) = 2', '%s(sin, x) = 2',
                         '%s(a,b,c,d,q,g_,h_,i,j,k_,l) = a', '%s(x)) = x', '%s(1+2) = 3', '%s([x]) = 2', '%s(x) y = x', 'sin(x) = x', '+ = 2', '%s(x+) = 2', '%s(~) = 3']).replace('%s', m)
    if k < 0.57:
        return r.choice(['clear nope', 'clear x y', 'clear  f', 'clear 3', 'clear sin', 'clear pi', 'clear f(x)', 'clear ' + 'long' * r.randint(1, 20)])
    if k < 0.61:
        return g.clear()
    if k < 0.66:
        return g.table()
    if k < 0.68:
        return r.choice(['help', 'help operators', 'license', '', '#', '# 1+1', 'load nofile', 'load .', 'load simplification nofile'])
    return broken(r, g)


def bad_table(r, g, m, rules):
    """A table command with a bad argument, and where its marker belongs"""
    for _ in range(50):
        fold = r.random() < 0.5
        args = ['x+1' if r.random() < 0.5 else '2 * x', '1', '2', '1'] + (['x+y', '0'] if fold else [])
        i = r.randrange(len(args))
        k = r.random()
        what = None
        if k < 0.3 and i in (1, 2, 3, 5):
            args[i] = r.choice(['x', 'x+1', 'foo * 2', '1 + q', '(long_name)', 'sum(1, x)'])
            what = {(0, len(args[i]), 'not constant')}
        elif k < 0.4:
            i = 3
            args[i] = r.choice(['0', '1-1', '0 * 3', '  0', 'max(0, -1)', '-0'])
            what = {(0, len(args[i].strip()), 'step')}
        elif k < 0.5:
            i = 0
            args[i] = r.choice(['x+y', 'x * foo', 'sum(a, b, c)', 'long_name + q'])
            what = {(0, len(args[i]), 'variables')}
        elif k < 0.6 and fold:
            i = 4
            args[i] = r.choice(['x+z', 'x+y+foo', 'z', 'sum(x, a, y)'])
            what = {(0, len(args[i]), 'fold')}
        else:
            s = broken(r, g).strip(' ')
            if not s or ';' in s or ' fold ' in s:
                continue
            w = locate(s, m, rules=rules)
            if w is None or w[0] != 'at':
                continue
            args[i], what = s, w[1]
        line = 'table '
        for j, a in enumerate(args):
            if j:
                line += ';' if j != 4 else ' fold '
            line += ' ' * r.choice((0, 1, 1, 2, 7))
            if j == i:
                at = len(line) + len(a) - len(a.lstrip(' '))
            line += a + ' ' * r.choice((0, 1, 1, 2))
        if line[5:].lstrip(' ').startswith('fold '):
            continue
        return line, {(at + c, l, q) for c, l, q in what}
    return None


def judge_marker(ck, line, want, p, t, key, s):
    pe, te = p[1], t[1]
    if want is None:
        return
    if want == 'none':
        if te != pe:
            ck.violation('%r: unexpected marker in %r' % (line, te), key, s)
        return
    if not pe:
        ck.violation('%r must be refused (marker %s), got %r' % (line, sorted(want), p), key, s)
        return
    at = marker(te, pe)
    if at is None:
        ck.violation('%r: no marker in %r' % (line, te), key, s)
        return
    ck.count('markers_' + min(k for _, _, k in want))
    ck.count('marker_right_of_message' if te.lstrip(b' ')[:1] != b'^' else 'marker_left_of_message')
    if not any(at == (c, l) for c, l, k in want):
        ck.violation('%r: marker at column %d, length %d, belongs to %s; printed %r' % (line, at[0], at[1], ' or '.join('column %d, length %d' % w[:2] for w in sorted(want)), te), key, s)
    elif not any(at == (c, l) and (k not in MESSAGES or MESSAGES[k] in te) for c, l, k in want):
        ck.violation('%r: operator at column %d failed with %s; printed %r' % (line, at[0], want, te), key, s)


# ---------------------------------------------------------------- the real terminal
def readline_build():
    """The program as it is installed: line editing, no harness"""
    out = os.path.join(vf.scratch(), 'ccalc')
    inc = ['-I' + d for d in vf.repo_dirs()]
    vf._run(['gcc', '-std=gnu99', '-O1', '-w', '-DINSTALL_PATH="/nonexistent"', '-DUSE_READLINE', *inc, *vf.repo_sources(), '-o', out, '-lm', '-lreadline'])
    return out


def on_terminal(exe, steps, timeout=60):
    """Everything shown on a pseudo terminal while lines are typed; exit status. steps: (line, expected number of characters shown before it)"""
    pid, fd = pty.fork()
    if pid == 0:
        os.environ.update(TERM='dumb', INPUTRC='/dev/null', LC_ALL='C.UTF-8')
        os.execv(exe, [exe, '-q'])
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 30000, 0, 0))
    out, end = b'', time.time() + timeout
    todo = [(vf.b(l) + b'\n', n) for l, n in steps[:-1]] + [(b'\x04', steps[-1][1])]
    start, last = None, time.time()
    while time.time() < end:
        rd, _, _ = select.select([fd], [], [], 0.01)
        if rd:
            try:
                x = os.read(fd, 65536)
            except OSError:
                break
            if not x:
                break
            out += x.replace(b'\r', b'')
            last = time.time()
            continue
        if not todo:
            if time.time() - last > 10:
                break
            continue
        # the next line is typed when the program waits for it: line editing is switched on and the answer has been shown
        waiting = not termios.tcgetattr(fd)[3] & termios.ICANON
        if start is None:
            start = len(out) if waiting and out.endswith(b"load a ruleset.\n") else None
        if waiting and (start is not None and len(out) - start >= todo[0][1] or time.time() - last > 3):
            if start is None:
                start = len(out)
            try:
                os.write(fd, todo.pop(0)[0])
            except OSError:
                break
            last = time.time()
    os.close(fd)
    try:
        for _ in range(200):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return out[start or 0:], st
            time.sleep(0.02)
        os.kill(pid, 9)
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass
    return out[start or 0:], None


def typable(l):
    return all(32 <= ord(c) < 127 for c in l)


def run():
    ck = vf.Check('C21', rule='same command sequences in a pipe and on a terminal; each answer compared after removing what a terminal adds; the marker of each refused or failing expression '
                  'compared with the position computed by a reference parser/evaluator; some sessions on a pseudo terminal with line editing', min_cases=1000)
    r = ck.rng
    todo = []
    for _ in range(ck.n(2600, 26000)):
        rules = r.random() < 0.25
        g = sess.SessGen(r, tame=rules, hist=0.15)
        m = Model(rules)
        lines, wants = [], {}
        if rules:
            lines = [broken(r, g) if r.random() < 0.6 else r.choice([g.value, g.symbolic])() for _ in range(r.choice((3, 6, 10)))]
            if r.random() < 0.4:
                lines.insert(r.randint(0, len(lines)), c21_deriv(r))
        else:
            lines = [command(r, g) for _ in range(r.choice((3, 8, 15)))]
        lines = [l.replace('\n', ' ').replace('\0', '') for l in lines]
        if r.random() < 0.25:
            w = bad_table(r, g, m, rules) if not g.defs else None
            if w:
                lines.insert(0, w[0])
                wants[0] = w[1]
        if r.random() < 0.05:
            lines.append('quit')
        kw = dict(variant=vf.RULES if rules else vf.NORULES, budget=60_000_000, timeout=30, time=r.randint(1, 1000))
        if r.random() < 0.15:
            # loads that fail or do nothing
            kw['files'] = {'lf': r.choice(['2 +\n', '# nothing\n', '', '\n\n', '# two\n1/0', 'x + \n3 + ) 4\n', 'load lg\n']), 'lg': '(\n'}
            i = r.randint(1 if wants else 0, len(lines))
            lines.insert(i, r.choice(['load lf', 'load lf', 'load nofile', 'load .', 'load simplification nofile']))
        todo.append((lines, wants, rules, m, vf.Session(lines, **kw), vf.Session(lines, tty=1, args=['-q'], **kw)))
    res = iter(vf.run_sessions([s for t in todo for s in t[4:]]))
    for lines, wants, rules, m, sp, st in todo:
        p, t = next(res), next(res)
        key = 'session:' + '|'.join(lines)
        if not (p.clean and t.clean):
            if p.budget_hit or t.budget_hit:
                ck.count('endless')
            else:
                ck.violation('%r: in a pipe %s, on a terminal %s' % (lines, p.describe(), t.describe()), key, st)
            continue
        if p.exit_code != t.exit_code or len(p.recs) != len(t.recs):
            ck.violation('%r: exit status %d after %d lines in a pipe, %d after %d on a terminal' % (lines, p.exit_code, len(p.recs), t.exit_code, len(t.recs)), key, st)
            continue
        if p.startup() != t.startup():
            ck.violation('%r: different start %r %r' % (lines, p.startup(), t.startup()), key, st)
        ck.case(key, None)
        for i, l in enumerate(lines):
            if l == 'quit':
                break
            a, b = p.step(i), t.step(i)
            one = vf.Session(lines[:i + 1], tty=1, variant=st.variant, time=st.time, files=st.files)
            msg = same_step(l, a, b)
            if msg:
                ck.violation('%r after %r: %s' % (l, lines[:i], msg), 'same:' + l, one)
                break
            ck.count('answers_compared')
            # position of the marker
            want = wants[i] if i in wants else locate_line(l, m, rules)
            judge_marker(ck, l, want, a, b, 'marker:' + l, one)
            m.step(l, outcome(p, i))
        else:
            end = t.out[t.recs[len(lines)].out:] if len(t.recs) > len(lines) else b''
            if end.strip(b'\n'):
                ck.violation('%r: end of input prints %r on a terminal' % (lines, end), key, st)
    # derivatives: the operator that can not be resolved
    derivs(ck, r)
    real_terminal(ck, r)
    ck.finish()


DERIVS = [("(x+y)'", "'"), ("(x*y*z)'", "'"), ('deriv(x, 2)', 'deriv'), ('deriv(x^2, x+1)', 'deriv'), ("floor(x)'", "'"), ("(x!)'", "'"), ('deriv(gcd(x, 2), x)', 'deriv'), ("max(x, 1)'", "'"),
          ("round(x)'", "'"), ("sum(x, fib(x))'", "'"), ('deriv(y*ceil(x), x)', 'deriv')]


def c21_deriv(r):
    e, _ = r.choice(DERIVS)
    return pad_plain(r) + e + r.choice(['', ' + 1', '*2', ' - z'])


def pad_plain(r):
    return r.choice(['', '', '  ', '3 + ', 'a * b - ', 'sin(a) + ', ' ' * 60, 'aaaa + bbbb + cccc + dddd + eeee + ffff + gggg + hhhh + '])


def derivs(ck, r):
    cases = []
    for _ in range(ck.n(200, 2000)):
        e, tok = r.choice(DERIVS)
        pre = pad_plain(r)
        line = pre + e + r.choice(['', ' + 1', '*2', ' - z'])
        cases.append((line, len(pre) + (e.rindex(tok) if tok == "'" else e.index(tok)), len(tok)))
    ss = [vf.Session([c[0] for c in cases[i:i + 10]], tty=tty, args=['-q'], budget=200_000_000) for i in range(0, len(cases), 10) for tty in (0, 1)]
    res = iter(vf.run_sessions(ss))
    for i in range(0, len(cases), 10):
        p, t = next(res), next(res)
        if not (p.clean and t.clean):
            ck.violation('derivatives: %s, %s' % (p.describe(), t.describe()), 'deriv', t.session)
            continue
        for j, (line, col, n) in enumerate(cases[i:i + 10]):
            ck.case(line, line)
            one = vf.Session([line], tty=1)
            if p.step(j)[1]:
                judge_marker(ck, line, {(col, n, 'deriv')}, p.step(j), t.step(j), 'marker:' + line, one)
            else:
                ck.count('derivatives_accepted')


def real_terminal(ck, r):
    exe = readline_build()
    plans = []
    for _ in range(ck.n(24, 240)):
        g = sess.SessGen(r, hist=0.15)
        lines = [l for l in (command(r, g) for _ in range(12)) if typable(l) and 'rand' not in l and l not in ('license', 'help', 'help operators')]
        lines = [l for l in lines if not l.startswith('load')]
        if r.random() < 0.3:
            lines.append('quit')
        plans.append(lines)
    ref_ = vf.run_sessions([vf.Session(l, tty=1, args=['-q'], variant=vf.NORULES, budget=60_000_000) for l in plans])
    from concurrent.futures import ThreadPoolExecutor
    cases = []
    for lines, x in zip(plans, ref_):
        if not x.clean:
            continue
        want, steps = b'', []
        for i, l in enumerate(lines):
            s = x.step(i)
            if s is None:
                break
            steps.append((l, len(want)))
            want += vf.b(l) + b'\n' + s[1] + s[0]
        steps.append((None, len(want.rstrip(b'\n'))))
        cases.append((lines, x, want, steps))
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda q: subprocess_terminal(exe, q[3]), cases))
    for (lines, x, want, _), (out, status) in zip(cases, got):
        ck.case(('pty', tuple(lines)), None)
        ck.count('pseudo_terminal_sessions')
        if status is None or not os.WIFEXITED(status) or os.WEXITSTATUS(status) != x.exit_code:
            ck.violation('%r on a pseudo terminal: status %s instead of %d; shows %r' % (lines, status, x.exit_code, out[-300:]), 'pty:' + '|'.join(lines), x.session)
        elif out.rstrip(b'\n') != want.rstrip(b'\n'):
            i = next((i for i in range(min(len(out), len(want))) if out[i] != want[i]), min(len(out), len(want)))
            ck.violation('%r on a pseudo terminal: shows %r instead of %r' % (lines, out[max(0, i - 60):i + 100], want[max(0, i - 60):i + 100]), 'pty:' + '|'.join(lines), x.session)


TYPIST = r'''
import sys; sys.path[:0] = %r
import c21, json
o, s = c21.on_terminal(sys.argv[1], json.loads(sys.argv[2]))
sys.stdout.buffer.write(json.dumps([o.decode('latin-1'), s]).encode())
'''


def subprocess_terminal(exe, steps):
    """In a process of its own, as it forks"""
    import json, sys
    p = subprocess.run([sys.executable, '-c', TYPIST % ([q for q in sys.path if q.startswith(vf.VERIF)],), exe, json.dumps(steps)], capture_output=True, timeout=120)
    if p.returncode:
        raise vf.HarnessError('terminal: ' + p.stderr.decode()[-500:])
    o, s = json.loads(p.stdout)
    return o.encode('latin-1'), s
