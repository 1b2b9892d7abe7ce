"""C18: rendered tables are rectangular, contain every cell intact and have exactly the requested borders."""
import re, struct
import api, gen, ref, sess, vf
from common import *

MAXC = 11
ANSI = re.compile(r'\x1b\[[0-9;]*m')
NONE, SINGLE, DOUBLE = 0, 1, 2
# Which box-drawing character connects to (above, right, below, left)
GLYPH = {}
for style, chars in ((SINGLE, '┌┬┐├┼┤└┴┘─│'), (DOUBLE, '╔╦╗╠╬╣╚╩╝═║')):
    for ch, arms in zip(chars, ('rb', 'rbl', 'bl', 'arb', 'arbl', 'abl', 'ar', 'arl', 'al', 'rl', 'ab')):
        GLYPH[(style, frozenset(arms))] = ch


def width(line):
    return len(ANSI.sub('', line))


class Cell:
    def __init__(self):
        self.set = False
        self.text = None
        self.span = (1, 1)
        self.h = self.v = self.left = self.above = None  # overrides
        self.parent = None


class Table:
    """Reference: a grid of cells; borders belong to the left and upper edges of cells"""

    def __init__(self):
        self.cells = {}
        self.rows = 1
        self.cols = 0
        self.x = self.y = 0
        self.hdef = [0] * MAXC
        self.vdef = [0] * MAXC
        self.vline = [NONE] * MAXC
        self.hline = {}
        self.ops = []

    def cell(self, x=None, y=None):
        k = (self.x if x is None else x, self.y if y is None else y)
        if k not in self.cells:
            self.cells[k] = Cell()
        return self.cells[k]

    def op(self, code, *args):
        self.ops.append(vf.b(code) + b''.join(args))

    # ------------------------------------------------------------ operations
    def add(self, code, text):
        self.op(code, *([] if code == 'e' else [api.s(text.encode('utf-8'))]))
        c = self.cell()
        c.set, c.text = True, None if code == 'e' else text
        self.cols = max(self.cols, self.x + 1)
        while self.x < MAXC and self.cell().set:
            self.x += 1

    def array(self, rows):
        self.op('Z', api.u32(len(rows[0])), api.u32(len(rows)), *[api.s(x.encode('utf-8')) for row in rows for x in row])
        n = len(self.ops)
        for row in rows:
            for x in row:
                self.add('a', x)
            self.next_row()
        del self.ops[n:]

    def next_row(self):
        self.op('r')
        self.x = 0
        if self.y + 1 == self.rows:
            self.rows += 1
            self.y += 1
        else:
            self.y += 1
            while self.x < MAXC and self.cell().set:
                self.x += 1

    def position(self, x, y):
        self.op('p', api.u32(x), api.u32(y))
        self.x, self.y = x, y
        self.rows = max(self.rows, y + 1)

    def span(self, sx, sy):
        self.op('s', api.u32(sx), api.u32(sy))
        c = self.cell()
        taken = lambda i, j: (self.x + i, self.y + j) in self.cells and self.cells[(self.x + i, self.y + j)].set
        # a span ends before the first cell of its first row and above the first row that are already set
        sx = min([i for i in range(1, sx) if taken(i, 0)], default=sx)
        sy = min([j for j in range(1, sy) if any(taken(i, j) for i in range(sx))], default=sy)
        c.span = (sx, sy)
        self.cols = max(self.cols, self.x + sx)
        self.rows = max(self.rows, self.y + sy)
        for j in range(sy):
            for i in range(sx):
                if (i, j) == (0, 0):
                    continue
                d = self.cell(self.x + i, self.y + j)
                d.set, d.parent = True, (self.x, self.y)
                if i:
                    d.left = NONE
                if j:
                    d.above = NONE

    def free_area(self, sx, sy):
        return self.x + sx <= MAXC - 1 and all(not self.cell(self.x + i, self.y + j).set for i in range(sx) for j in range(sy))

    def align(self, code, a):
        self.op(code, bytes([a]))
        if code in 'hv':
            setattr(self.cell(), code, a)
        else:
            for x in range(MAXC):
                setattr(self.cell(x), code.lower(), a)

    def defaults(self, hs, vs):
        self.op('d', api.u32(len(hs)), *[bytes([a, b]) for a, b in zip(hs, vs)])
        for i, (a, b) in enumerate(zip(hs, vs)):
            self.hdef[i], self.vdef[i] = a, b

    def set_hline(self, s):
        self.op('l', bytes([s]))
        self.hline[self.y] = s

    def set_vline(self, x, s, record=True):
        if record:
            self.op('|', api.u32(x), bytes([s]))
        self.cols = max(self.cols, x + 1)
        self.vline[x] = s

    def all_vlines(self, s):
        self.op('A', bytes([s]))
        for x in range(1, self.cols):
            self.set_vline(x, s, False)

    def left(self, s):
        self.op('L', bytes([s]))
        self.cell().left = s

    def above(self, s):
        self.op('U', bytes([s]))
        self.cell().above = s

    def box(self, s):
        self.op('B', bytes([s]))
        self.set_vline(0, s, False)
        self.hline[0] = s
        self.set_vline(self.cols, s, False)
        self.hline[self.rows - 1] = s
        self.x, self.y = self.cols - 1, self.rows - 1

    # ------------------------------------------------------------ rendering
    def request(self):
        return api.u32(len(self.ops)) + b''.join(self.ops)

    def left_style(self, x, y):
        c = self.cell(x, y)
        return self.vline[x] if c.left is None else c.left

    def above_style(self, x, y):
        c = self.cell(x, y)
        return self.hline.get(y, NONE) if c.above is None else c.above

    def has_vline(self, x):
        """Is there a border column to the left of column x?"""
        return self.vline[x] != NONE or any(self.cell(x, y).left for y in range(self.rows))

    def has_hline(self, y):
        return self.hline.get(y, NONE) != NONE or any(self.cell(x, y).above for x in range(MAXC))

    def sizes(self, n, need):
        """need: [(from, to, amount)]: single cells first, then what is still missing is spread evenly, first ones get the surplus"""
        res = [0] * n
        for a, z, m in need:
            if z - a == 1:
                res[a] = max(res[a], m)
        for a, z, m in need:
            miss = m - sum(res[a:z])
            if miss > 0:
                for j in range(z - a):
                    res[a + j] += miss // (z - a) + (1 if miss % (z - a) > j else 0)
        return res

    def owners(self):
        for y in range(self.rows):
            for x in range(self.cols):
                c = self.cell(x, y)
                if c.set and c.parent is None:
                    yield x, y, c

    def render(self):
        if self.cols == 0:
            return []
        lines_of = lambda c: [] if c.text is None else c.text.split('\n')
        wn, hn = [], []
        for x, y, c in self.owners():
            w = max([width(l) for l in lines_of(c)], default=0)
            inner = sum(1 for i in range(x + 1, x + c.span[0]) if self.has_vline(i))
            wn.append((x, x + c.span[0], max(0, w - inner)))
            inner = sum(1 for j in range(y + 1, y + c.span[1]) if self.has_hline(j))
            hn.append((y, y + c.span[1], max(0, len(lines_of(c)) - inner)))
        ws, hs = self.sizes(self.cols, wn), self.sizes(self.rows, hn)
        # a last column or row without content only carries the closing border
        if ws[-1] == 0:
            for y in range(self.rows):
                self.cell(self.cols - 1, y).above = NONE
        if hs[-1] == 0:
            for x in range(self.cols):
                self.cell(x, self.rows - 1).left = NONE
        vl = [self.has_vline(x) for x in range(self.cols)]
        hl = [self.has_hline(y) for y in range(self.rows)]
        # display rows: ('b', y) border above row y, ('t', y, j) line j of row y
        drows = []
        for y in range(self.rows):
            if hl[y]:
                drows.append(('b', y))
            drows += [('t', y, j) for j in range(hs[y])]
        out = []
        area = {}
        for x, y, c in self.owners():
            sx, sy = c.span
            w = sum(ws[x:x + sx]) + sum(1 for i in range(x + 1, x + sx) if vl[i])
            h = sum(hs[y:y + sy]) + sum(1 for j in range(y + 1, y + sy) if hl[j])
            area[(x, y)] = self.block(c, x, w, h, lines_of(c))
        for d in drows:
            s = ''
            y = d[1]
            x = 0
            while x < self.cols:
                c = self.cell(x, y)
                root = c.parent or (x, y)
                inside = root[1] < y if d[0] == 'b' else True
                if vl[x]:
                    s += self.junction(x, y) if d[0] == 'b' else self.edge(self.left_style(x, y), 'ab')
                if d[0] == 'b' and not inside:
                    s += self.edge(self.above_style(x, y), 'rl') * ws[x]
                    x += 1
                elif root in area:
                    b = area[root]
                    k = self.line_in(root, d, hs, hl)
                    s += b[k]
                    x = root[0] + self.cell(*root).span[0]
                else:
                    s += ' ' * ws[x]
                    x += 1
            out.append(s)
        return out

    def line_in(self, root, d, hs, hl):
        """Index of display row d within the area of the cell at root"""
        y = root[1]
        k = 0
        for j in range(y, d[1]):
            k += hs[j] + (1 if j > y and hl[j] else 0)
        if d[0] == 't':
            k += (1 if d[1] > y and hl[d[1]] else 0) + d[2]
        return k

    def edge(self, style, arms):
        return ' ' if style == NONE else GLYPH[(style, frozenset(arms))]

    def junction(self, x, y):
        st = {'a': self.left_style(x, y - 1) if y else NONE, 'b': self.left_style(x, y),
              'r': self.above_style(x, y), 'l': self.above_style(x - 1, y) if x else NONE}
        arms = frozenset(k for k, v in st.items() if v != NONE)
        if not arms:
            return ' '
        n2 = sum(v == DOUBLE for v in st.values())
        style = DOUBLE if n2 > len(arms) - n2 else SINGLE
        return GLYPH.get((style, arms), ' ')  # a border that just ends has no junction

    def block(self, c, x, w, h, lines):
        ha = self.hdef[x] if c.h is None else c.h
        va = self.vdef[x] if c.v is None else c.v
        top = {0: 0, 1: h - len(lines), 2: (h - len(lines)) // 2}[va]
        res = []
        for k in range(h):
            if not 0 <= k - top < len(lines):
                res.append(' ' * w)
                continue
            l = lines[k - top]
            pad = w - width(l)
            lp = {0: 0, 1: pad, 2: pad // 2}[ha]
            res.append(' ' * lp + l + ' ' * (pad - lp))
        return res


WORDS = ['', ' a ', ' 12 ', 'x', 'longer text', ' -1110.1 ', 'two\nlines', ' three\n li\nnes here ', '\n', ' tail\n', '%d %s %%', '1234567890123456789', ' ', 'a\n\nb']


def text(r):
    if r.random() < 0.08:
        return '\n'.join('x' * r.randint(0, 12) for _ in range(r.randint(2, 8)))
    k = r.random()
    t = r.choice(WORDS) if k < 0.7 else ''.join(r.choice('abcxyz 019') for _ in range(r.randint(0, 14)))
    if r.random() < 0.2:
        t = '\n'.join('\x1b[%sm%s\x1b[0m' % (r.choice(('92', '1;36', '33;1')), l) for l in t.split('\n'))
    if r.random() < 0.06:
        t += r.choice((' °C', 'é', 'π ', '→', '√2'))
    return t


def gen_table(r):
    t = Table()
    ncol = r.randint(1, r.choice((2, 4, 6, 9)))
    nrow = r.randint(1, r.choice((1, 3, 5, 9)))
    mode = r.random()
    spans = r.choice((0, 0, 0.15, 0.4))
    over = r.choice((0, 0, 0.1, 0.3))
    styles = r.choice(((1,), (2,), (1, 2), (0, 1, 2)))
    if r.random() < 0.6:
        k = r.randint(1, MAXC)
        t.defaults([r.randint(0, 2) for _ in range(k)], [r.randint(0, 2) for _ in range(k)])
    if r.random() < 0.15:
        # cells that later spans run into
        for _ in range(r.randint(1, 5)):
            x, y = r.randint(0, ncol), r.randint(0, nrow)
            if x < MAXC - 1 and not t.cell(x, y).set:
                t.position(x, y)
                t.add('a', text(r))
        spans = 0.4
        t.position(0, 0)
    for y in range(nrow):
        while r.random() < 0.25:  # the last style counts
            t.set_hline(r.choice(styles if r.random() < 0.8 else (0, 1, 2)))
        if r.random() < 0.1:
            t.align(r.choice('HV'), r.randint(0, 2))
        n = ncol if r.random() < 0.8 else r.randint(0, ncol)
        while t.x < n:
            if t.cell().set:
                break
            if r.random() < spans:
                sx, sy = r.choice(((2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 4), (5, 1)))
                if (t.free_area(sx, sy) or t.x + sx <= MAXC - 1 and r.random() < 0.5) and t.cell().span == (1, 1):
                    t.span(sx, sy)
            if r.random() < over:
                t.align(r.choice('hv'), r.randint(0, 2))
            while r.random() < over * 0.6:
                t.left(r.choice((0, 1, 2)))
            while r.random() < over * 0.6:
                t.above(r.choice((0, 1, 2)))
            code = r.choice('aaagfe')
            t.add(code, text(r))
        if y + 1 < nrow or r.random() < 0.5:
            t.next_row()
    if r.random() < 0.1 and t.x == 0 and not any(c.set and y >= t.y for (_, y), c in t.cells.items()):
        w = r.randint(1, 9)
        t.array([[text(r) for _ in range(w)] for _ in range(r.randint(1, 6))])
    if r.random() < 0.15:  # cells out of order
        for _ in range(r.randint(1, 3)):
            x, y = r.randint(0, ncol), r.randint(0, nrow + 1)
            if x < MAXC - 1 and not t.cell(x, y).set:
                t.position(x, y)
                t.add(r.choice('ag'), text(r))
    k = r.random()
    if k < 0.3:
        t.all_vlines(r.choice(styles))
    for _ in range(r.choice((0, 0, 1, 2, 5))):
        t.set_vline(r.randint(0, max(0, t.cols - 1)), r.choice(styles))
    if r.random() < 0.1:
        t.set_vline(min(MAXC - 1, t.cols), r.choice(styles))
    if r.random() < 0.3 and t.cols < MAXC:
        # the closing line is drawn above the last row, which is meant to be empty
        t.position(0, t.rows)
        t.box(r.choice((1, 2)))
    return t


def structure(lines, t):
    """Properties of the rendering that hold for any layout"""
    ws = {width(l) for l in lines}
    if len(ws) > 1:
        return 'lines of different widths %s' % sorted(ws)
    return None


def show(lines):
    return '\n' + '\n'.join('|' + ANSI.sub('', l) + '|' for l in lines)


def run():
    ck = vf.Check('C18', rule='random tables through the library interface (spans, alignments, borders and overrides, several lines, colours, non-ASCII text) '
                  'compared with a reference layout, rendered twice; tables and help pages printed by sessions', min_cases=500)
    r = ck.rng
    ts = [gen_table(r) for _ in range(ck.n(9000, 90000))]
    for t, a in zip(ts, api.run([('X', t.request()) for t in ts], per=300)):
        want = t.render()
        info = {'ops': [o.decode('latin-1') for o in t.ops]}
        key = 'table:' + repr(t.ops)
        ck.case(tuple(t.ops), show(want)[:400])
        if isinstance(a, api.Crash):
            ck.violation('rendering failed: %s (expected %s)' % (a.what, show(want)), key, info)
            continue
        one, two = a.raw(a.u32()).decode('utf-8', 'replace'), a.raw(a.u32()).decode('utf-8', 'replace')
        if one != two:
            ck.violation('printing a table twice gives two different texts: %s %s' % (show(one.split('\n')), show(two.split('\n'))), key, info)
            continue
        got = one.split('\n')
        if got.pop() != '':
            ck.violation('last line is not ended: %r' % one[-100:], key, info)
            continue
        s = structure(got, t)
        if s:
            ck.violation('%s: %s expected %s' % (s, show(got), show(want)), key, info)
        elif got != want:
            ck.violation('expected %s got %s' % (show(want), show(got)), key, info)
        ck.count('cells', sum(1 for _ in t.owners()))
        ck.count('spanning_cells', sum(1 for _, _, c in t.owners() if c.span != (1, 1)))
        ck.count('lines_rendered', len(want))
        ck.count('junctions', sum(ch in '┌┬┐├┼┤└┴┘╔╦╗╠╬╣╚╩╝' for l in want for ch in l))
    sessions = []
    for _ in range(ck.n(300, 3000)):
        g = sess.SessGen(r, tame=True)
        lines = [g.definition() for _ in range(r.randint(0, 5))] + [r.choice((g.table, lambda: 'help operators', lambda: 'help'))() for _ in range(r.randint(1, 3))]
        sessions.append(vf.Session(lines, variant=vf.NORULES, tty=int(r.random() < 0.5)))
    for res in vf.run_sessions(sessions):
        s = res.session
        if not res.clean:
            ck.violation('%r: %s' % (s.lines, res.describe()), 'session:' + repr(s.lines), s)
            continue
        for i, line in enumerate(s.lines):
            o = res.step(i)[0].decode('utf-8', 'replace')
            blocks = []
            if line.startswith('table '):
                blocks = [[l for l in o.split('\n') if l and not l.startswith('Fold')]]
            elif line == 'help operators':
                blocks = [b.split('\n')[1:] for b in o.split('\n\n')]
                blocks = [[l for l in b if l] for b in blocks]
            elif 'User-defined functions' in o:
                blocks = [[l for l in o.split('User-defined functions and constants:\n')[1].split('\n') if l]]
            for b in blocks:
                if not b:
                    continue
                ck.case((line, tuple(b)))
                ck.count('session_tables')
                m = structure(b, None)
                if m:
                    ck.violation('%r: %s: %s' % (line, m, show(b)), 'session:' + line, s)
    ck.finish()
