"""C24: help shows the operators and definitions that are really in force."""
import itertools, re
import api, c10, gen, ref, sess, vf
from common import *
from model import Model

ANSI = re.compile(r'\x1b\[[0-9;]*m')
ANY = None


def blocks(text):
    """{title: lines} of a text whose sections begin with a line ending in a colon"""
    res, cur = {}, None
    for l in text.split('\n'):
        if l.endswith(':') and not l.startswith((' ', '│')):
            cur = res.setdefault(l[:-1], [])
        elif cur is not None and l.strip():
            cur.append(l)
    return res


def operator_tables(text):
    """{'infix': {name: (precedence, 'L'/'R')}, 'prefix': {name: precedence}, 'postfix': .., 'function': {name: arity}, 'constant': {name: text}}, and names listed twice"""
    res = {'infix': {}, 'prefix': {}, 'postfix': {}, 'function': {}, 'constant': {}}
    twice = []
    for title, lines in blocks(text).items():
        kind = {'Infix operators': 'infix', 'Prefix operators': 'prefix', 'Postfix operators': 'postfix', 'Functions': 'function', 'Constants': 'constant'}.get(title)
        if kind is None:
            continue
        head, at = re.split(r'\s{2,}', lines[0].strip()), None
        for l in lines[1:]:
            c = l.split()
            name = c[0]
            if name in res[kind]:
                twice.append(name)
            if kind == 'infix':
                res[kind][name] = (int(c[1]), c[2][0])
            elif kind in ('prefix', 'postfix'):
                res[kind][name] = int(c[1])
            elif kind == 'function':
                res[kind][name] = ANY if c[1] == '*' else int(c[1])
            else:
                v = l[lines[0].index('Value') - 1:lines[0].index('Description') - 1]
                # a value wider than the title begins further left: take the second word if there is one between name and description
                res[kind][name] = v.strip()
    return res, twice


def short_page(text):
    """{(kind, name): arity} of the operators on the short help page, and those that occur twice"""
    res, twice = {}, []
    for w in re.findall(r'\x1b\[47m\x1b\[22;30m(.*?)\x1b\[0m', text):
        m = re.fullmatch(r'([A-Za-z_]+)\((\d+|\*)\)', w)
        if m:
            k = ('function', m.group(1), ANY if m.group(2) == '*' else int(m.group(2)))
        elif re.fullmatch(r'x (\w+) y', w):
            k = ('infix', w[2:-2], 2)
        elif re.fullmatch(r'x[^\w\s]y', w):
            k = ('infix', w[1:-1], 2)
        elif re.fullmatch(r'[^\w\s]x', w):
            k = ('prefix', w[:-1], 1)
        elif re.fullmatch(r'x[^\w\s]', w):
            k = ('postfix', w[1:], 1)
        else:
            k = ('constant', w, 0)
        if k in res:
            twice.append(w)
        res[k] = True
    return set(res), twice


class Probe:
    """Behaviour of the parser, asked for in one batch"""

    def __init__(self):
        self.reqs = {}

    def want(self, *texts):
        for t in texts:
            self.reqs.setdefault(t, None)

    def run(self):
        ts = list(self.reqs)
        for t, a in zip(ts, api.run([('P', b'\0' + api.s(t)) for t in ts])):
            if isinstance(a, api.Crash):
                self.reqs[t] = 'died: ' + a.what
                continue
            for _ in range(a.u32()):
                a.s()
            self.reqs[t] = a.tree() if a.u8() == ord('K') else None

    def __getitem__(self, t):
        return self.reqs[t]


def operators(ck):
    r = ck.rng
    val = r.randint(2, 10 ** 6) / 8
    # the built-in operators are the same whatever has been done before
    name = lambda i: 'q' + ''.join(chr(97 + (i // 26 ** k) % 26) for k in range(3))
    defs = lambda n: [r.choice(['%s = %d', '%s(x) = x + %d', '%s(x, y) = x*y + %d']) % (name(i), i) for i in range(n)]
    later = [(['qq = 1'], vf.NORULES)]
    for n in (1, 5, 12, 30, 80):
        v = r.choice((vf.RULES, vf.NORULES))
        later += [(defs(n), v), (defs(n) + ['clear'], v), (defs(n) + ['clear %s' % name(i) for i in r.sample(range(n), n // 2 + 1)], v),
                  (defs(n) + ['qaa = 7', 'table x; 1; 3; 1', '1/0', 'foo(', '@7', 'clear', 'sin = 1', 'help', 'license'] + defs(n // 2), v)]
    pages = vf.run_sessions([vf.Session(['help operators', 'help'], variant=v, tty=t) for v in (vf.RULES, vf.NORULES) for t in (0, 1)] +
                            [vf.Session(pre + ['%r' % val, 'help operators', 'help'], variant=v, meta='after') for pre, v in later])
    base = None
    for p in pages:
        if not p.clean:
            ck.violation('help: %s' % p.describe(), 'help', p.session)
            return
        n = len(p.session.lines)
        long_, short = (p.step(n - 2 + i)[0].decode('utf-8') for i in (0, 1))
        try:
            tables, twice = operator_tables(ANSI.sub('', long_))
        except (ValueError, IndexError) as e:
            ck.violation('operator tables can not be read (%s): %r' % (e, long_[:500]), 'format', p.session)
            return
        listed, twice2 = short_page(short)
        if twice or twice2:
            ck.violation('listed more than once: %r' % (twice + twice2), 'twice', p.session)
        descriptions(ck, ANSI.sub('', long_))
        for title, part in blocks(short).items():
            if 'onstants' in title or 'unctions' in title and 'ser' not in title:
                for w in re.findall(r'\x1b\[47m\x1b\[22;30m([a-z]+)', '\n'.join(part)):
                    where = 'Trig' if w in TRIG else 'Constants' if w in tables['constant'] else 'Misc'
                    if where != 'Misc' and not title.startswith(where) or title.startswith(('Trig', 'Constants')) and where == 'Misc':
                        ck.violation('%s is listed under %r' % (w, title), 'group:' + w, p.session)
        flat = {('infix', k, 2) for k in tables['infix']} | {('prefix', k, 1) for k in tables['prefix']} | {('postfix', k, 1) for k in tables['postfix']} | \
               {('function', k, a) for k, a in tables['function'].items()} | {('constant', k, 0) for k in tables['constant']}
        if flat != listed:
            ck.violation('the short page and the tables differ in %r' % sorted(map(repr, flat ^ listed)), 'pages', p.session)
        ck.case(('page', tuple(p.session.lines)))
        if p.session.meta == 'after':
            if tables['constant'].get('ans') != '%.10g' % val:
                ck.violation('after the result %r the value of ans is given as %r' % (val, tables['constant'].get('ans')), 'ans', p.session)
            tables['constant']['ans'] = ''
        elif tables['constant'].get('ans'):
            ck.violation('without any result the value of ans is given as %r' % tables['constant'].get('ans'), 'ans', p.session)
        if base is None:
            base = tables
        elif base != tables:
            ck.violation('operator tables differ between sessions: %r, %r' % (base, tables), 'tables', p.session)
    t = base
    key = lambda what: ck.violation(what, 'operator:' + what)
    pr = Probe()
    # names and arities
    names = set()
    for k in (1, 2, 3):
        names |= {''.join(c) for c in itertools.product('abcdefghijklmnopqrstuvwxyz', repeat=k)}
    for n in list(ref.FUNCS) + [x for d in t.values() for x in d if x[0].isalpha()]:
        names |= {n, n.upper(), n.capitalize(), n[:-1], n + 's', n + 'h', 'a' + n, 'arc' + n, n + '_', n + n} - {''}
    names |= set('ABCDEFGHIJKLMNOPQRSTUVWXYZ_') | {'mean', 'median', 'sign', 'floor', 'trunc', 'fraction', 'permutations', 'binom', 'choose', 'count', 'type', 'equal', 'tau', 'planck', 'cbrt', 'expm', 'hypot', 'power', 'last', 'history',
                                                    'random', 'fibonacci', 'variance', 'stddev', 'cot', 'sec', 'csc', 'TRUE', 'FALSE', 'CONST', 'VAR', 'OP', 'factorial', 'derive', 'int', 'integrate', 'solve', 'gold', 'euler'}
    names = {n for n in names if ref.number(n) is None}
    call = lambda n, k: '%s(%s)' % (n, ','.join('vwxyzstuopqabcd'[:k]))
    for n in names:
        pr.want(n, 'v %s w' % n)
        if n in ref.FUNCS or n in t['function'] or n in t['constant']:
            pr.want(*[call(n, k) for k in range(14)])
        else:
            pr.want(call(n, 2), call(n, 1))
    syms = [chr(c) for c in range(33, 127) if not chr(c).isalnum() and chr(c) not in '_[].(){},'] + ['==', '!=', '<=', '>=', '||', '&&', '**', '//', '->', '!!', '++', '--', '<', '>']
    for c in syms:
        pr.want('v%sw' % c, '%sv' % c, 'v%s' % c)
    ins, pres, posts = list(t['infix']), list(t['prefix']), list(t['postfix'])
    for a in ins:
        for b in ins:
            pr.want('v %s w %s x' % (a, b))
        for p in pres:
            pr.want('%s v %s w' % (p, a))
        for q in posts:
            pr.want('v %s w %s' % (a, q))
    for p in pres:
        for q in posts:
            pr.want('%s v %s' % (p, q))
    pr.run()
    for text, res in pr.reqs.items():
        if isinstance(res, str):
            key('%r: parser %s' % (text, res))
            return
    V = lambda n: ref.V(n)
    for n in sorted(names):
        ck.case(('name', n))
        const = pr[n] is not None and pr[n].k == 'o' and pr[n].x == 'f' + n
        if const != (n in t['constant']):
            key('%s is %s constant, but it is %slisted as one' % (n, 'a' if const else 'no', '' if n in t['constant'] else 'not '))
        isinfix = pr['v %s w' % n] is not None and pr['v %s w' % n].x == 'i' + n
        if isinfix != (n in t['infix']):
            key('%s is %s infix operator, but it is %slisted as one' % (n, 'an' if isinfix else 'no', '' if n in t['infix'] else 'not '))
        if n in t['function'] or n in ref.FUNCS and ref.FUNCS[n] != 0:
            takes = [k for k in range(14) if pr[call(n, k)] is not None and pr[call(n, k)].x == 'f' + n]
            want = [] if n not in t['function'] else list(range(14)) if t['function'][n] is ANY else [t['function'][n]]
            ck.count('arities')
            if takes != want:
                key('%s accepts %r arguments, listed are %s' % (n, takes, 'any number' if t['function'].get(n, 0) is ANY else t['function'].get(n, 'none at all')))
        elif any(pr[call(n, k)] is not None and pr[call(n, k)].x == 'f' + n for k in (1, 2)):
            key('function %s is not listed' % n)
    for c in syms:
        ck.case(('symbol', c))
        for kind, text, op in (('infix', 'v%sw', 'i'), ('prefix', '%sv', 'p'), ('postfix', 'v%s', 'q')):
            x = pr[text % c]
            if kind == 'infix' and x is not None and x.x == 'i*' and c != '*':
                x = None  # glued operands
            real = x is not None and x.k == 'o' and x.x == op + c
            if real != (c in t[kind]):
                key('%s is %s %s operator, but it is %slisted' % (c, 'a' if real else 'no', kind, '' if c in t[kind] else 'not '))
    # precedences: which operator is applied first
    for a in ins:
        for b in ins:
            x = pr['v %s w %s x' % (a, b)]
            (pa, aa), (pb, ab) = t['infix'][a], t['infix'][b]
            if pa == pb and aa != ab:
                continue
            left = pa > pb or pa == pb and aa == 'L'
            ck.case(('pair', a, b), 'v %s w %s x => %s' % (a, b, x))
            if x is None or (x.x == 'i' + b and x.c[1] == V('x')) != left and a != b or a == b and (x.c[0].k == 'o') != left:
                key('v %s w %s x is %s, but the listed precedences are %d and %d (%s)' % (a, b, x, pa, pb, aa))
        for p in pres:
            x = pr['%s v %s w' % (p, a)]
            pp, (pa, aa) = t['prefix'][p], t['infix'][a]
            ck.case(('prefix', p, a))
            if pp != pa and (x is None or (x.x == 'i' + a) != (pp > pa)):
                key('%s v %s w is %s, but the listed precedences are %d and %d' % (p, a, x, pp, pa))
        for q in posts:
            x = pr['v %s w %s' % (a, q)]
            pq, (pa, aa) = t['postfix'][q], t['infix'][a]
            ck.case(('postfix', a, q))
            if pq != pa and (x is None or (x.x == 'i' + a) != (pq > pa)):
                key('v %s w %s is %s, but the listed precedences are %d and %d' % (a, q, x, pa, pq))
    for p in pres:
        for q in posts:
            x = pr['%s v %s' % (p, q)]
            pp, pq = t['prefix'][p], t['postfix'][q]
            ck.case(('around', p, q))
            if pp != pq and (x is None or (x.x == 'p' + p) != (pp < pq)):
                key('%s v %s is %s, but the listed precedences are %d and %d' % (p, q, x, pp, pq))
    # values
    cs = [n for n in t['constant'] if n != 'ans']
    s = vf.run_sessions([vf.Session(cs, variant=vf.NORULES)])[0]
    for i, n in enumerate(cs):
        ck.case(('value', n), '%s = %s' % (n, t['constant'][n]))
        o = s.step(i)
        if o is None or o[0].decode().strip() != t['constant'][n]:
            key('%s is listed with value %r, answers %r' % (n, t['constant'][n], o))


EXACT = re.compile(r'\d+(?:\.\d+)?')
ARGS = ['2', '3', '0.5', '-1', '7', '1.25', '4', '-3', '6', '0.1']


def definitions(ck):
    """Everything listed is entered again in a fresh session"""
    r = ck.rng
    first = []
    for _ in range(ck.n(1300, 13000)):
        rules = r.random() < 0.25
        g = sess.SessGen(r, tame=True, names=r.choice((sess.NAMES[:6], sess.NAMES)), hist=0.05 if r.random() < 0.3 else 0)
        lines = []
        for _ in range(r.choice((1, 3, 6, 10, 20))):
            k = r.random()
            lines.append(g.definition() if k < 0.6 else g.clear() if k < 0.75 else g.bad() if k < 0.85 else g.value(2))
        lines = [l for l in lines if l.strip() != 'quit' and not l.startswith('load simplification')]
        first.append(vf.Session(lines + ['help'], variant=vf.RULES if rules else vf.NORULES, tty=int(r.random() < 0.2)))
    ra = vf.run_sessions(first)
    second = []
    for a in ra:
        if not a.clean or len(a.recs) <= len(a.session.lines) - 1:
            ck.violation('%r: %s' % (a.session.lines, a.describe()), 'crash:' + repr(a.session.lines), a.session)
            second.append(None)
            continue
        a.session.meta = c10.user_section(a.step(len(a.session.lines) - 1)[0])
        calls = []
        for left, _ in a.session.meta:
            n = left.count(',') + 1 if '(' in left else 0
            calls.append(c10.head_name(left) + ('(%s)' % ','.join(ARGS[:n]) if n else ''))
        second.append((calls, vf.Session(a.session.lines[:-1] + calls, variant=a.session.variant),
                       vf.Session(['%s = %s' % p for p in a.session.meta] + ['help'] + calls, variant=a.session.variant)))
    rb = iter(vf.run_sessions([x for p in second if p for x in p[1:]]))
    for a, p in zip(ra, second):
        if not p:
            continue
        o, b = next(rb), next(rb)
        sec = a.session.meta
        what = '%r lists %r' % (a.session.lines, sec)
        bad = lambda m: ck.violation('%s: %s' % (what, m), 'listing:' + repr(a.session.lines), a.session)
        if not o.clean or not b.clean:
            bad('%s, %s' % (o.describe(), b.describe()))
            continue
        ck.case(tuple(sec), repr(sec[:3]))
        ck.count('listings')
        ck.count('listed_definitions', len(sec))
        names = [c10.head_name(l) for l, _ in sec]
        m = Model(rules=a.session.variant == vf.RULES)
        for i, line in enumerate(a.session.lines[:-1]):
            m.step(line, outcome(a, i))
        if not a.session.tty and names != list(m.defs):
            bad('defined are %r' % list(m.defs))
            continue
        if len(set(names)) != len(names):
            bad('a name is listed more than once')
            continue
        if any(re.search(r'\de[+-]\d|inf|nan', z) for _, z in sec):
            ck.count('skipped_exponents')
            continue
        refused = [i for i in range(len(sec)) if b.step(i)[1]]
        if refused:
            bad('%r can not be entered again: %r' % (sec[refused[0]], b.step(refused[0])[1]))
            continue
        sec2 = c10.user_section(b.step(len(sec))[0])
        if a.session.variant == vf.NORULES and sec2 != sec:
            bad('entered again it lists %r' % sec2)
            continue
        if [c10.head_name(l) for l, _ in sec2] != names:
            bad('entered again it lists %r' % sec2)
            continue
        n = len(a.session.lines) - 1
        for i, call in enumerate(p[0]):
            x, y = o.step(n + i), b.step(len(sec) + 1 + i)
            exact = all(len(m.replace('.', '')) < 10 for m in EXACT.findall(sec[i][1]))
            ck.count('reentered_definitions')
            if a.session.variant == vf.RULES and (x[1] or y[1]):
                continue  # simplification may remove parts that can not be evaluated
            if bool(x[1]) != bool(y[1]):
                bad('%r answers %r, after entering the listing %r' % (call, x, y))
                break
            if not x[1]:
                u, v = printed_value(x[0]), printed_value(y[0])
                if (u is None) != (v is None) or u is not None and exact and not ref.close(u, v, 1e-9 if a.session.variant == vf.NORULES else 1e-6, 1e-9 if a.session.variant == vf.NORULES else 1e-5) \
                        and not (a.session.variant == vf.RULES and abs(u) > 1e6):
                    bad('%r answers %r, after entering the listing %r' % (call, x[0], y[0]))
                    break


# words a description must and must not contain
ABOUT = {('Infix', '+'): ('add', ''), ('Infix', '-'): ('subtr', ''), ('Infix', '*'): ('multipl', ''), ('Infix', '/'): ('divi', ''), ('Infix', '^'): ('expon|power', ''), ('Infix', 'C'): ('binom', ''), ('Infix', 'mod'): ('modul|remain', ''),
         ('Prefix', '$'): ('parenth|bracket', ''), ('Prefix', '@'): ('histor', ''), ('Prefix', '+'): ('ident', 'parenth'), ('Prefix', '-'): ('nega', ''), ('Postfix', "'"): ('deriv', ''), ('Postfix', '!'): ('factor', ''), ('Postfix', '%'): ('100|percent', ''),
         ('Functions', 'deriv'): ('deriv', ''), ('Functions', 'exp'): ('exp.*expon|exp ', 'log'), ('Functions', 'root'): ('root.*root', 'sq'), ('Functions', 'sqrt'): ('sqrt.*(square|root)', 'nth'), ('Functions', 'log'): ('log.*log', 'natural binary 10'),
         ('Functions', 'ln'): ('natural', ''), ('Functions', 'ld'): ('binary|2', ''), ('Functions', 'lg'): ('10', ''), ('Functions', 'sin'): ('sine', 'cosi hyper inver'), ('Functions', 'cos'): ('cosine', 'hyper inver'), ('Functions', 'tan'): ('tan.*tang', 'hyper inver'),
         ('Functions', 'asin'): ('inver sine', 'cosi hyper'), ('Functions', 'acos'): ('inver cosine', 'hyper'), ('Functions', 'atan'): ('inver tang', 'hyper'), ('Functions', 'sinh'): ('hyper sine', 'cosi inver'), ('Functions', 'cosh'): ('hyper cosine', 'inver'),
         ('Functions', 'tanh'): ('hyper tang', 'inver'), ('Functions', 'asinh'): ('inver hyper sine', 'cosi'), ('Functions', 'acosh'): ('inver hyper cosine', ''), ('Functions', 'atanh'): ('inver hyper tang', ''), ('Functions', 'max'): ('max.*(maxi|great|larg)', ''),
         ('Functions', 'min'): ('min.*(mini|small|least)', ''), ('Functions', 'abs'): ('absol', ''), ('Functions', 'ceil'): ('up', ''), ('Functions', 'floor'): ('down', ''), ('Functions', 'round'): ('near', 'up down zero'), ('Functions', 'trunc'): ('zero', 'up down'),
         ('Functions', 'frac'): ('fractional', ''), ('Functions', 'sgn'): ('sign', ''), ('Functions', 'sum'): ('sum.*(sum|add)', 'prod'), ('Functions', 'prod'): ('prod.*(product|mult)', ''), ('Functions', 'avg'): ('mean|average', ''), ('Functions', 'gcd'): ('divisor', ''),
         ('Functions', 'lcm'): ('multiple', ''), ('Functions', 'rand'): ('random', ''), ('Functions', 'fib'): ('fibon', ''), ('Functions', 'gamma'): ('gamma.*gamma', ''), ('Functions', 'var'): ('varian', ''),
         ('Constants', 'pi'): ('archim|circle|pi.*pi', ''), ('Constants', 'e'): ('euler', ''), ('Constants', 'phi'): ('gold', ''), ('Constants', 'clight'): ('light.*light', ''), ('Constants', 'csound'): ('sound.*sound', ''), ('Constants', 'ans'): ('last|previous|latest', '')}
TRIG = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh'}


def descriptions(ck, text):
    """What the listing says about each operator, and the group in which the short page has it"""
    for title, lines in blocks(text).items():
        for l in lines[1:]:
            c = l.split()
            want = ABOUT.get((title.split()[0], c[0]))
            ck.case(('description', title, c[0]))
            if want is None:
                continue
            d = l.lower()
            if not all(re.search(w, d) for w in want[0].split()) or any(w in d for w in want[1].split()):
                ck.violation('%s is described by %r' % (c[0], l), 'description:%s' % c[0], None)


def run():
    ck = vf.Check('C24', rule='every listed operator against the behaviour of the parser (arities 0..13, all pairs of operators, values), all names of up to three letters and all symbols '
                  'against the listings; listings of user definitions after random histories entered again in a fresh session', min_cases=1000)
    operators(ck)
    definitions(ck)
    ck.finish()
