"""Reference reading of simplification rule files and a generator of valid and damaged ones."""
import gen, ref, vf
import rewrite as rw

FUNCS = dict(ref.FUNCS, type=1, equal=2, count=None, CONST=0, VAR=0, OP=0, TRUE=0, FALSE=0)
SYMBOLS = ref.SYMBOLS + ['==', '!=', '<', '>', '<=', '>=', '||']
PREFIX = dict(ref.PREFIX, **{'!': 4})
MAX_CONDS, MAX_VARS, SETS = 3, 10, 7


class Undetermined(Exception):
    """The documentation does not say what this file means"""


def parse(s):
    return ref.Parser(ref.tokenize(s, SYMBOLS), FUNCS, infix=rw.PROP_INFIX, prefix=PREFIX, glue=False).parse()


def lists_fit(n, inside=False):
    if n.k == 'v':
        return inside or not rw.is_list(n)
    return n.k != 'o' or all(lists_fit(c, n.x[0] == 'f' and FUNCS.get(n.x[1:], 0) is None) for c in n.c)


def read_rule(line):
    """Rule or None when the line is malformed"""
    i = line.find('->')
    if i < 0:
        return None
    w = line.find(' WHERE ')
    if 0 <= w < i:
        raise Undetermined()
    try:
        left = parse(line[:i])
        right = parse(line[i + 2:w] if w >= 0 else line[i + 2:])
        conds = [parse(c) for c in line[w + 7:].split(' ; ')] if w >= 0 else []
    except ref.Reject:
        return None
    vs = set(left.vars())
    if len(conds) > MAX_CONDS or len(vs) > MAX_VARS or not set(right.vars()) <= vs or not all(set(c.vars()) <= vs for c in conds):
        return None
    if not lists_fit(right) or not all(lists_fit(c) for c in conds):
        return None
    return rw.Rule(left, right, conds)


def read(data):
    """List of seven lists of rules, or None when the file has to be rejected"""
    if b'\0' in data or b'\r' in data or b'\t' in data:
        raise Undetermined()
    sets = []
    early = False
    for line in data.decode('latin-1').split('\n'):
        line = line.split('#')[0].lstrip(' ')
        if line == '':
            continue
        if line.startswith('RULESET'):
            if line.rstrip(' ') != 'RULESET':
                raise Undetermined()
            sets.append([])
        elif not sets:
            early = True
        else:
            x = read_rule(line)
            if x is None:
                if len(sets) > SETS:
                    raise Undetermined()
                return None
            sets[-1].append(x)
    if len(sets) < SETS:
        return None
    if early:
        raise Undetermined()
    return sets[:SETS]


def canonical(sets):
    return vf.b(''.join('RULESET\n' + ''.join(x.text() + '\n' for x in s) for s in sets))


# ------------------------------------------------------------------ generation
def spaced(r, line):
    """Other spaces between tokens"""
    body, arrow, rest = line.partition('->')
    if not arrow:
        return line
    right, where, conds = rest.partition(' WHERE ')

    def sp(s, p):
        toks = [t for t in ref.tokenize(s, SYMBOLS) if t != ' ']
        o = ''
        for i, t in enumerate(toks):
            glued = i and ref.cls(toks[i - 1][-1]) == ref.cls(t[0]) and ref.cls(t[0]) != 'O'
            if i and toks[i - 1] + t[0] in SYMBOLS or i and toks[i - 1] == '-' and t == '>':
                glued = True
            o += ' ' * (r.choice((1, 1, 2)) if glued else r.choice(p)) + t
        return o + ' ' * r.choice(p)
    p = r.choice(((0,), (0, 1), (1,), (0, 1, 3)))
    res = ' ' * r.choice((0, 1, 4, 9)) + sp(body, p) + '->' + sp(right, p)
    if where:
        # two spaces in a row would not split conditions differently
        res += ' WHERE ' + ' ; '.join(sp(c, p) for c in conds.split(' ; '))
    return res


def format_edit(r, data):
    out = []
    for line in data.decode('latin-1').split('\n'):
        if r.random() < 0.1:
            out.append(r.choice(['', '   ', '# x -> y', '   # RULESET', '#', '#->', '# WHERE ; #']))
        body, _, comment = line.partition('#')
        if body.strip() and not body.strip().startswith('RULESET') and r.random() < 0.4:
            body = spaced(r, body)
        elif body.strip().startswith('RULESET'):
            body = ' ' * r.choice((0, 0, 2)) + 'RULESET' + ' ' * r.choice((0, 0, 1))
        if r.random() < 0.15:
            body += '#' + r.choice(['', ' comment', ' -> ', ' x WHERE y', '#', ' RULESET'])
        out.append(body)
    res = '\n'.join(out)
    k = r.random()
    if k < 0.4:
        res = res.rstrip('\n')
    elif k < 0.6:
        res += '\n' * r.randint(1, 3)
    elif k < 0.7:
        res = res.rstrip('\n') + r.choice(['\n  ', '\n#', ' # end', '   '])
    return vf.b(res)


def malformed(r):
    """Rule line that has to be rejected"""
    return r.choice([
        'max(91, x)', 'max(91, x) - > x', '-> x', 'x ->', '->', 'max(91, x) -> y', 'max(91, x) -> sum([xs])', 'max(91, x, -> x', 'max(91, x) -> x)',
        'max(91, x) -> 2x', 'max(91, x) -> x WHERE y == 1', 'max(91, x) -> x WHERE', 'max(91, x) -> x WHERE ', 'max(91, x) -> x WHERE  ; x == 1',
        'max(91, x) -> x WHERE x == 1 ; x == 1 ; x == 1 ; x == 1', 'max(91, x) -> x WHERE x == 1 ;x == 2', 'max(91, [xs]) -> sin([xs])', 'max(91, [xs]) -> [xs]',
        'max(91, [xs]) -> 1 WHERE [xs] == 1', 'max(91, [xs]) -> 1 WHERE type([xs]) == OP', 'max(91, [xs]) -> 1 + [xs]', 'max(91, [xs]) -> sum(-[xs])', 'max(91, [xs]) -> sum(1, [xs] * 2)', 'max(91, [xs]) -> max(sin([xs]), x)', 'max(91, [xs], x) -> prod(x, max(1, 2 - [xs]))', 'max(91, [xs]) -> sum([xs], sqrt([xs]))',
        'max(91, [xs]) -> 1 WHERE sum(-[xs]) == 1', 'max(91, [xs]) -> 1 WHERE sum(sin([xs]), 1) > 0', 'max(91, [xs]) -> (sum([xs]))([xs])', 'max(91, x) -> sum(x, y)', 'max(91, x, y) -> sum(y, x, z)', 'max(91, x, [ys]) -> sum([ys], x, [zs])',
        'max(91, x, y) -> y + z * x',
        'sum(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk) -> 1', 'sum(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, [vk]) -> 1', 'max(91, x) -> x where x == 1',
        'max(91, x) => x', 'max(91, x) -> sin(x, x)', 'sin(x, y) -> x', 'max(91, x) -> equal(x)', 'max(91, x) -> x -> x', 'x', '1', '()', 'RULES', 'ruleset', 'max(91, x) -> x WHERE x = 1',
        'max(91, x) -> x ~', 'max(91, x) -> x WHERE x == 1 ; ', 'max(91,, x) -> x', 'max(91 x) -> x', 'max(91, x) > x', '"max(91, x)" -> x', 'max(91, x) -> 1.2.3',
    ])


def limits(r):
    """Rules at the limits, which have to be accepted"""
    return r.choice([
        'sum(91, va, vb, vc, vd, ve, vf, vg, vh, vi, vj) -> va', 'sum(91, va, vb, vc, vd, ve, vf, vg, vh, vi, [vj]) -> max(vb, [vj])',
        'max(92, x, y) -> min(x, y, 92) WHERE type(x) != OP ; type(y) == VAR ; TRUE', 'max(93, x) -> 93*x WHERE 1 == 1 ; TRUE ; !(FALSE)',
        'max(94,x)->min(94,x)', 'max(95, [xs]) -> min(95, [xs], [xs])', 'max(96, [xs], [ys]) -> min([ys], 96, [xs]) WHERE sum([xs], 1) == 2 || TRUE',
        'max(97, x, x) -> x', 'max(98, x)-> x', 'max(99, _a) -> min(_a)', 'max(99, { x }) -> (x)',
    ])


def markers(r):
    """File whose rules have visible effects of their own: max(K, ...) becomes min(..., K', ...)"""
    out = []
    n = 1
    big = r.randrange(SETS) if r.random() < 0.04 else None
    for i in range(SETS):
        out.append('RULESET')
        for _ in range(r.choice((20, 66, 130, 260)) if i == big else r.choice((0, 1, 1, 2, 3))):
            k = r.choice((n, n, n, r.randint(1, n)))  # often shadowed by or shadowing another one
            n += 1
            left = r.choice(['max(%d, x)', 'max(%d, [xs])', 'max(%d, x, y)', 'max(%d, x, x)', 'max(%d, [xs], y)']) % k
            vs = ref.parse(left).vars()
            v = lambda: r.choice(vs)
            right = 'min(' + ', '.join([v() for _ in range(r.randint(0, 3))] + ['%d' % (100 * (i + 1) + n)]) + ')'
            cond = ''
            if r.random() < 0.4:
                pl = [x for x in vs if x[0] != '['] or ['1']
                c = lambda: r.choice(['type(%s) == VAR', 'type(%s) == CONST', '%s > 2', 'type(%s) != OP', '%s == %s', 'equal(%s, %s)', '%s < 5 || type(%s) == VAR', '!(type(%s) == CONST)', 'TRUE',
                                      '(%s - 2) || FALSE', 'FALSE || (1 - %s)', '!(%s)', '!(%s - 2)', '%s', '%s - 3', '%s >= -2', '%s <= 2', '%s != -2', '!(-1)', '-1 || %s == 7', '!(%s || -%s)']).replace('%s', r.choice(pl))
                cond = ' WHERE ' + ' ; '.join(c() for _ in range(r.choice((1, 1, 2, 3))))
            out.append('    %s -> %s%s' % (left, right, cond))
    if r.random() < 0.1:
        # more sets than there are: not in force
        for i in range(r.choice((1, 1, 2, 6))):
            out.append('RULESET')
            for _ in range(r.randint(0, 2)):
                out.append('    max(%d, %s) -> min(%d)' % (r.randint(1, n), r.choice(['x', '[xs]', 'x, y']), 900 + i))
    return vf.b('\n'.join(out) + '\n'), n


def damage(r, data):
    """Edited file; the reference decides what it is afterwards"""
    lines = data.split(b'\n')
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        i = r.randrange(len(lines))
        k = r.random()
        if k < 0.15:
            del lines[i]
            lines = lines or [b'']
        elif k < 0.3:
            lines.insert(i, lines[r.randrange(len(lines))])
        elif k < 0.4:
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k < 0.6:
            lines[i] = vf.b(gen.mutate(r, lines[i].decode('latin-1')).replace('\n', ' '))
        elif k < 0.75:
            lines.insert(i, vf.b(' ' * r.choice((0, 4)) + malformed(r)))
        elif k < 0.85:
            lines.insert(i, vf.b(limits(r)))
        elif k < 0.9:
            hs = [j for j, l in enumerate(lines) if l.lstrip().startswith(b'RULESET')]
            if hs:
                del lines[r.choice(hs)]
        else:
            # cut, often close to the end of a line
            d = b'\n'.join(lines)
            p = r.randrange(len(d) + 1)
            if r.random() < 0.6 and b'\n' in d[p:]:
                p = max(0, d.index(b'\n', p) + r.randint(-3, 2))
            lines = d[:p].split(b'\n')
    return b'\n'.join(lines)
