"""Interpretation of observed output."""
import math, re
import ref, vf

MESSAGES = {'zero': b'Division by zero', 'complex': b'Complex solution', 'history': b'This part of the history is not set yet'}


def outcome(res, i):
    """What a command answered: ('out', text) for a result, ('err', text) for a rejection, ('none',), ('both', out, err)"""
    st = res.step(i)
    if st is None:
        return ('missing',)
    return classify(st[0], st[1], res.session.tty)


def classify(o, e, tty=0):
    if tty:
        o = o.strip(b'\n') if o.strip(b'\n') == b'' else o
        if o.startswith(b'= '):
            o = o[2:]
    if e and not o.strip():
        return ('err', e)
    if e:
        return ('both', o, e)
    if o:
        return ('out', o)
    return ('none',)


def parse_output(o, funcs=ref.FUNCS):
    """Tree denoted by a printed result line (extended by exponent notation), None if it is not exactly one such line"""
    if not o.endswith(b'\n') or o.count(b'\n') != 1:
        return None
    return parse_printed(o[:-1].decode('latin-1'), funcs)


NUM = re.compile(r'(?<![A-Za-z_\[\]])(\d+(?:\.\d+)?)e([+-]\d+)')


def parse_printed(s, funcs=ref.FUNCS):
    """Printed numbers may use exponent notation; read them as one literal"""
    if 'e+' in s or 'e-' in s:
        vals = {}

        def sub2(m):
            name = 'litq' + ''.join(chr(97 + int(d)) for d in str(len(vals)))
            vals[name] = float(m.group(0))
            return name
        s2 = NUM.sub(sub2, s)
        try:
            t = ref.parse(s2, funcs)
        except ref.Reject:
            return None

        def back(n):
            if n.k == 'v' and n.x in vals:
                return ref.Node('n', vals[n.x], (), n.t)
            if n.k == 'o':
                return ref.Node('o', n.x, [back(c) for c in n.c], n.t)
            return n
        return back(t)
    try:
        return ref.parse(s, funcs)
    except ref.Reject:
        return None


def printed_value(o):
    t = parse_output(o)
    if t is None or t.vars():
        return None
    try:
        return ref.evaluate(t)
    except (ref.Fail, ref.Unknown):
        return None


def value_matches(o, want, tol=1e-9):
    v = printed_value(o)
    return v is not None and ref.close(v, want, max(tol, 2e-10))


def error_matches(e, kind):
    return MESSAGES[kind] in e and e.count(b'\n') == 1
