"""C22: vector, linked list, prefix tree and string builder behave like their abstract models."""
import api, vf
from api import s, u32
import struct

LO, HI = 33, 125  # characters a prefix tree accepts


def fill(n, seed):
    v = (seed * 2654435761) & 0xffffffff
    return bytes(((v >> (8 * (i % 4))) & 0xff) ^ ((i * 31) & 0xff) for i in range(n))


class Script:
    """A request together with the bytes the model says it answers"""

    def __init__(self, op):
        self.op, self.req, self.want, self.log, self.n = op, [], [], [], 0

    def do(self, code, payload=b'', answer=b'', note=''):
        self.req.append(code.encode() + payload)
        self.want.append(answer)
        self.log.append(note or code)
        self.n += 1


def vector(r):
    es, start = r.choice((1, 2, 4, 8, 12, 40)), r.choice((0, 1, 1, 2, 5, 50, 2 ** r.randint(2, 12)))
    m, c = [], Script('v')
    if r.random() < 0.25:
        # sizes around the powers of two, reached in one step or in two
        n = (start if start > 50 and r.random() < 0.7 else 2 ** r.randint(1, 13) // r.choice((1, 1, es))) + r.choice((-1, 0, 0, 1, 2))
        for k in ((n,) if r.random() < 0.4 else (n - 1, 1) if r.random() < 0.7 else (n // 2, n - n // 2)):
            if k > 0:
                seed = r.randrange(1 << 32)
                c.do('m', u32(k) + u32(seed), note='push_many %d' % k)
                m += [fill(es, (seed + j) & 0xffffffff) for j in range(k)]
    for _ in range(r.choice((3, 10, 30, 120)) if len(m) < 1000 else 8):
        k = r.random()
        seed = r.randrange(1 << 32)
        if k < 0.2:
            c.do('p', u32(seed), note='push %d' % seed)
            m.append(fill(es, seed))
        elif k < 0.3:
            c.do('e', u32(seed), note='push_empty')
            m.append(fill(es, seed))
        elif k < 0.42:
            n = r.choice((0 if start else 1, 1, 2, 3, 7, 20, 100))
            c.do('m', u32(n) + u32(seed), note='push_many %d' % n)
            m += [fill(es, (seed + j) & 0xffffffff) for j in range(n)]
        elif k < 0.55:
            c.do('o', b'', b'\1' + m[-1] if m else b'\0', note='pop')
            if m:
                m.pop()
        elif k < 0.6:
            c.do('k', b'', b'\1' + m[-1] if m else b'\0', note='peek')
        elif k < 0.75 and m:
            i = r.randrange(len(m))
            c.do('g', u32(i), m[i], note='get %d' % i)
        elif k < 0.82 and m:
            i = r.randrange(len(m))
            c.do('s', u32(i) + u32(seed), note='set %d' % i)
            m[i] = fill(es, seed)
        elif k < 0.84:
            c.do('c', note='clear')
            m = []
        elif k < 0.88:
            c.do('t', note='trim')
        elif k < 0.91:
            n = r.choice((0, 1, len(m), len(m) + 1, len(m) * 3, 200))
            c.do('r', u32(n), note='ensure_size %d' % n)
        elif k < 0.95:
            c.do('n', b'', u32(len(m)), note='count')
        else:
            n = r.randint(0, len(m) + 2)
            c.do('i', u32(n), b''.join(m[:n]) + b''.join(m) + u32(len(m)), note='iterate %d, reset, iterate' % n)
    c.do('i', u32(0), b''.join(m) + u32(len(m)), note='iterate')
    return c, u32(es) + u32(start) + u32(c.n)


def linked(r):
    es = r.choice((0, 1, 4, 8, 24))
    m, c, marks = [], Script('l'), {}   # m: list of [payload]; marks: slot -> element
    top = r.choice((3, 8, 40))
    for _ in range(r.choice((3, 10, 40, 120))):
        k = r.random()
        seed, slot = r.randrange(1 << 32), r.randrange(64)
        e = [fill(es, seed)]
        if k < 0.3 and len(m) > top:
            k = 0.5
        if k < 0.14:
            c.do('a', bytes([slot]) + u32(seed), note='append')
            m.append(e)
            marks[slot] = e
        elif k < 0.24:
            i = r.randint(0, len(m))
            c.do('i', bytes([slot]) + u32(i) + u32(seed), note='insert_at %d of %d' % (i, len(m)))
            m.insert(i, e)
            marks[slot] = e
        elif k < 0.34:
            live = [x for x in marks if any(y is marks[x] for y in m)]
            b = r.choice(live + [255])
            c.do('f', bytes([slot, b]) + u32(seed), note='insert_after')
            i = 0 if b == 255 else next(j for j, y in enumerate(m) if y is marks[b]) + 1
            m.insert(i, e)
            marks[slot] = e
        elif k < 0.5 and m:
            i = r.choice((0, len(m) - 1, r.randrange(len(m))))
            c.do('d', u32(i), note='delete_at %d of %d' % (i, len(m)))
            del m[i]
        elif k < 0.6:
            live = [x for x in marks if any(y is marks[x] for y in m)]
            if not live:
                continue
            x = r.choice(live)
            c.do('x', bytes([x]), note='delete_node')
            m = [y for y in m if y is not marks[x]]
        elif k < 0.72 and m:
            i = r.randrange(len(m))
            c.do(r.choice('gN'), u32(i), m[i][0], note='get_at %d of %d' % (i, len(m)))
        elif k < 0.84:
            live = [x for x in marks if any(y is marks[x] for y in m)]
            if not live:
                continue
            x = r.choice(live)
            if r.random() < 0.5:
                c.do('s', bytes([x]) + u32(seed), note='change element')
                marks[x][0] = fill(es, seed)
            else:
                c.do('m', bytes([x]), marks[x][0], note='data of node')
        elif k < 0.88:
            c.do('n', b'', u32(len(m)), note='count')
        elif k < 0.94:
            c.do('w', b'', walk(m), note='walk')
        else:
            n = r.randint(0, len(m))
            c.do('t', u32(n), b''.join(x[0] for x in m[:n]) + b''.join(x[0] for x in m) + u32(len(m)), note='iterate')
    # the list and both directions: backward search is used for indices in the second half
    c.do('w', b'', walk(m), note='walk')
    for i in range(len(m)):
        c.do('g', u32(i), m[i][0], note='get_at %d of %d' % (i, len(m)))
    while m and r.random() < 0.9:
        c.do('d', u32(len(m) - 1), note='delete last')
        m.pop()
        c.do('w', b'', walk(m), note='walk')
    return c, u32(es) + u32(c.n)


def walk(m):
    return b''.join(x[0] for x in m) + u32(len(m)) + bytes([not m, not m]) + (m[-1][0] if m else b'')


def word(r, pool):
    k = r.random()
    if k < 0.55 and pool:
        w = r.choice(sorted(pool))
        k = r.random()
        if k < 0.4:
            return w
        if k < 0.6:
            return w[:r.randint(0, len(w))]
        if k < 0.9:
            return w + ''.join(r.choice('ab!|') for _ in range(r.randint(1, 3)))
        return w[:-1] + r.choice('ab') if w else 'a'
    a = r.choice(('ab', 'abc', 'sinco', '!|"', ''.join(map(chr, range(LO, HI)))))
    return ''.join(r.choice(a) for _ in range(r.choice((0, 1, 1, 2, 3, 5, 12))))


def prefix_tree(r):
    es = r.choice((0, 1, 4, 8))
    m, c = {}, Script('t')
    long = r.random() < 0.3  # iterators support words of fewer than 29 characters
    b = lambda n: u32(n)
    for _ in range(r.choice((4, 15, 50, 150))):
        k = r.random()
        w = word(r, m)
        if long and r.random() < 0.5:
            w += r.choice('ab') * r.choice((10, 25, 26, 27, 28, 29, 60, 300))
        w = w[:400 if long else 28]
        seed = r.randrange(1 << 32)
        if k < 0.35:
            c.do('a', s(w) + u32(seed), b'\0' if w in m else b'\1', note='add %r' % w)
            if w not in m:
                m[w] = fill(es, seed)
        elif k < 0.55:
            if r.random() < 0.2:
                w += r.choice([' ', '}', '}', '~', '\x1f', '\x7f', '\x80', '\xff', '\n'])
            c.do('r', s(w), note='remove %r' % w)
            m.pop(w, None)
        elif k < 0.7:
            if r.random() < 0.2:
                w += r.choice([' ', '}', '}', '~', '\x1f', '\x7f', '\x80', '\xff', '\n'])
            c.do('c', s(w), (b'\1' + m[w] if w in m else b'\0') + bytes([w in m]), note='contains %r' % w)
        elif k < 0.9:
            if w and r.random() < 0.15:
                i = r.randrange(len(w))
                w = w[:i] + r.choice('} ~') + w[i:]
            if r.random() < 0.5:
                w += r.choice(['\x7f', '\x80x', '\xff', '\n', 'zz', ' ', 'a', 'ab', '~~~', '|', '}', '}a', '|}'])
            n = max([len(x) for x in m if x and w.startswith(x)], default=0)
            c.do('l', s(w), u32(n) + (m[w[:n]] if n else b'') + u32(n), note='longest prefix of %r' % w)
        elif k < 0.94 or long:
            c.do('n', b'', u32(len(m)), note='count')
        else:
            c.do('i', *iterate(m, r.randint(0, len(m))), note='iterate')
    c.do('n', b'', u32(len(m)), note='count')
    if not long:
        c.do('i', *iterate(m, 0), note='iterate over %d' % len(m))
    for w in sorted(m):
        c.do('c', s(w), b'\1' + m[w] + b'\1', note='contains %r' % w)
    return c, u32(es) + u32(c.n)


def iterate(m, n):
    it = [s(w) + m[w] for w in sorted(m)]
    return u32(n), b''.join(it[:n]) + b''.join(it) + u32(len(it))


def builder(r):
    c = Script('b')
    text = lambda: ''.join(r.choice('abc %dns\\"\xe4\n') for _ in range(r.choice((0, 1, 2, 5, 17, 40, 200))))
    if r.random() < 0.7:
        head, m = b'\0' + u32(r.choice((0, 1, 1, 2, 3, 10, 100, 2 ** r.randint(2, 12)))), ''
    else:
        m = text()
        head = b'\1' + s(m)
    edge = 2 ** r.randint(2, 13) + r.choice((-2, -1, 0, 1)) if r.random() < 0.3 else None
    for _ in range(r.choice((1, 3, 10, 30))):
        k = r.random()
        if edge and edge > len(m):
            # total lengths around the powers of two
            t = 'e' * (edge - len(m))
            if k < 0.4:
                c.do('s', s(t), note='append %d characters' % len(t))
                m += t
            elif len(t) > 15 and k < 0.8:
                t = t[:len(t) - 9]
                c.do('m', s(t) + struct.pack('<i', 1) + struct.pack('<d', 0), note='append formatted')
                m += '1<%s>0.000' % t
            else:
                c.do('c', b'x', note='append_char')
                m += 'x'
            edge = None
        elif k < 0.4:
            t = text()
            c.do('s', s(t), note='append %r' % t)
            m += t
        elif k < 0.55:
            t, d, f = text(), r.choice((0, -1, 7, 2147483647, -2147483648)), r.choice((0.0, -1.5, 1e300, 123456.789))
            c.do('m', s(t) + struct.pack('<i', d) + struct.pack('<d', f), note='append formatted')
            m += '%d<%s>%.3f' % (d, t, f)
        elif k < 0.75:
            x = r.choice('ab \xff\n')
            c.do('c', bytes([ord(x)]), note='append_char')
            m += x
        elif k < 0.8:
            c.do('x', note='clear')
            m = ''
        else:
            c.do('g', b'', s(m), note='to_str')
    c.want.append(s(m))
    return c, head + u32(c.n)


def run():
    ck = vf.Check('C22', rule='random operation sequences on each container (element sizes 0-40, growth from empty, shared prefixes, illegal characters, element references kept '
                  'across changes), every answer compared with an abstract model; distinct operation sequences', min_cases=3000)
    r = ck.rng
    todo = []
    for kind, f, n in (('vector', vector, 1500), ('list', linked, 1500), ('trie', prefix_tree, 2000), ('string builder', builder, 2000)):
        for _ in range(ck.n(n, n * 12)):
            todo.append((kind, *f(r)))
    reqs = [(c.op, head + b''.join(c.req)) for _, c, head in todo]
    for (kind, c, head), rd in zip(todo, api.run(reqs, per=100)):
        ck.case((kind, tuple(c.log), head), '%s: %s' % (kind, ', '.join(c.log)[:150]))
        ck.count('operations_on_' + kind.replace(' ', '_'), c.n)
        key = '%s:%s' % (kind, ','.join(c.log))
        extra = {'container': kind, 'operations': c.log}
        if isinstance(rd, api.Crash):
            ck.violation('%s: %s after some of %s' % (kind, rd.what, ', '.join(c.log)[-300:]), key, None, extra)
            continue
        want = b''.join(c.want)
        if rd.d == want:
            continue
        # first operation whose answer differs
        p = 0
        for i, w in enumerate(c.want):
            if rd.d[p:p + len(w)] != w:
                note = c.log[i] if i < len(c.log) else 'final content'
                ck.violation('%s: operation %d (%s) answers %r, must be %r; before: %s' % (kind, i, note, rd.d[p:p + len(w)][:80], w[:80], ', '.join(c.log[max(0, i - 12):i])), key, None, extra)
                break
            p += len(w)
        else:
            ck.violation('%s: answers more than expected' % kind, key, None, extra)
    ck.finish()
