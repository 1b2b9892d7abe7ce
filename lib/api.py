"""Client of harness/apih.c: runs requests against the library interfaces of the real code."""
import os, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
import ref, vf


def exe():
    return vf.build('apih', ['apih.c'], ['-O1', *vf.SAN], [], [])


def s(x):
    x = vf.b(x)
    return struct.pack('<I', len(x)) + x


def u32(x):
    return struct.pack('<I', x)


def tree(n):
    if n.k == 'n':
        return b'n' + u32(n.t) + struct.pack('<d', n.x)
    if n.k == 'v':
        return b'v' + u32(n.t) + u32(0) + s(n.x)
    return b'o' + u32(n.t) + vf.b(n.x[0]) + s(n.x[1:]) + u32(len(n.c)) + b''.join(map(tree, n.c))


class Reader:
    def __init__(self, data):
        self.d, self.p = data, 0

    def u8(self):
        self.p += 1
        return self.d[self.p - 1]

    def u32(self):
        self.p += 4
        return struct.unpack_from('<I', self.d, self.p - 4)[0]

    def i32(self):
        self.p += 4
        return struct.unpack_from('<i', self.d, self.p - 4)[0]

    def f64(self):
        self.p += 8
        return struct.unpack_from('<d', self.d, self.p - 8)[0]

    def s(self):
        return self.raw(self.u32()).decode('latin-1')

    def raw(self, n):
        self.p += n
        return self.d[self.p - n:self.p]

    def tree(self):
        k = chr(self.u8())
        t = self.u32()
        if k == 'n':
            return ref.Node('n', self.f64(), (), t)
        if k == 'v':
            self.u32()
            return ref.Node('v', self.s(), (), t)
        place = chr(self.u8())
        name = self.s()
        n = self.u32()
        return ref.Node('o', place + name, [self.tree() for _ in range(n)], t)

    @property
    def end(self):
        return self.p == len(self.d)


class Crash:
    def __init__(self, what):
        self.what = what


_n = [0]
ENOUGH = 25
SKIPPED = 'not run after too many failures'
_failed = []


def _run(reqs, leaks=False):
    """[(op, payload)] -> [Reader | Crash]"""
    res = []
    e = exe()
    while len(res) < len(reqs):
        if len(_failed) >= ENOUGH:  # the verdict is known; failures that take long must not keep the check from telling it
            return res + [Crash(SKIPPED)] * (len(reqs) - len(res))
        _n[0] += 1
        base = os.path.join(vf.scratch(), 'a%d_%d' % (_n[0], id(reqs)))
        os.makedirs(base)
        fin, fout = os.path.join(base, 'in'), os.path.join(base, 'out')
        todo = reqs[len(res):]
        with open(fin, 'wb') as f:
            f.write(b''.join(vf.b(o) + u32(len(p)) + p for o, p in todo))
        try:
            r = subprocess.run([e, fin, fout], env=dict(vf.ENV, ASAN_OPTIONS=vf.ENV['ASAN_OPTIONS'] + ':hard_rss_limit_mb=2500', **({'LEAKS': '1'} if leaks else {})), capture_output=True, timeout=120 + len(todo) * 0.2)
            code, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as x:
            code, err = 'timeout', x.stderr or b''
        if code == 98:
            raise vf.HarnessError('api harness: %r' % err[-300:])
        data = open(fout, 'rb').read()
        p = 0
        got = 0
        while p + 4 <= len(data):
            n, = struct.unpack_from('<I', data, p)
            if p + 4 + n > len(data):
                break
            res.append(Reader(data[p + 4:p + 4 + n]))
            p += 4 + n
            got += 1
        if got < len(todo):
            what = {97: 'memory not released', -27: 'did not end'}.get(code, code)
            res.append(Crash('%s: %s' % (what, vf.sanitizer_summary(err))))
            _failed.append(what)
        elif code != 0:
            raise vf.HarnessError('api harness ended with %r: %r' % (code, err[-1500:]))
        os.remove(fin)
        os.remove(fout)
        os.rmdir(base)
    return res


def run(reqs, per=400, leaks=False):
    """Runs requests in parallel chunks; answers in order"""
    exe()
    chunks = [reqs[i:i + per] for i in range(0, len(reqs), per)]
    with ThreadPoolExecutor(vf.JOBS) as ex:
        return [x for c in ex.map(lambda c: _run(c, leaks), chunks) for x in c]
