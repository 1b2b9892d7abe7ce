"""Reference model of a session: definitions as a map, history as a list, commands answered by the reference language.
Where the documentation leaves an answer open (or it is numerically ill-conditioned), the model follows what it observes."""
import math
import ref
from common import *
from ref import Reject, Fail, Unknown, Node

MAX_PARAMS = 10
# Operators on which symbolic simplification is value-preserving for every real argument (up to rounding)
TAME = {'i+', 'i-', 'i*', 'p-', 'p+', 'p$', 'q%', 'fsin', 'fcos', 'fabs', 'fmax', 'fmin', 'fsum', 'fprod', 'fatan', 'ffloor',
        'fpi', 'fe', 'fphi', 'fclight', 'fcsound', 'fans', 'p@'}


class Expect:
    __slots__ = ('kind', 'v', 'err', 'tree', 'token', 'raw')

    def __init__(self, kind, v=None, err=None, tree=None, token=None, raw=None):
        self.kind, self.v, self.err, self.tree, self.token, self.raw = kind, v, err, tree, token, raw

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join('%s=%r' % (k, getattr(self, k)) for k in ('v', 'err', 'tree') if getattr(self, k) is not None))


class Model:
    def __init__(self, rules):
        self.rules = rules
        self.defs = {}    # name -> (params, expanded body, tame); insertion order = definition order
        self.hist = []    # oldest first; None: a result not determined by the model
        self.unknown_hist = False  # number of results itself unknown
        self.failed = False

    # ---------------------------------------------------------------- expressions
    def funcs(self):
        f = dict(ref.FUNCS)
        for n, (p, _, _) in self.defs.items():
            f[n] = len(p)
        return f

    def history(self):
        return None if self.unknown_hist else self.hist

    def parse(self, s, extra=None):
        f = self.funcs()
        if extra:
            f.update(extra)
        return ref.parse(s, f)

    def expand(self, t):
        return ref.expand(t, {n: (p, b) for n, (p, b, _) in self.defs.items()})

    def uses(self, t):
        return {o[1:] for o in t.ops() if o[0] == 'f' and o[1:] in self.defs}

    def tame(self, t):
        """Simplification can not change the value of this (unexpanded) expression"""
        return all(o in TAME or (o[0] == 'f' and o[1:] in self.defs and self.defs[o[1:]][2]) for o in t.ops())

    def eval_tree(self, t):
        """Expectation for an evaluated (unexpanded, parsed) expression"""
        x = self.expand(t)
        if 'frand' in x.ops() or (self.rules and x.ops() & {"q'", 'fderiv'}):
            return Expect('any')
        if self.rules and not all(self.defs[n][2] for n in self.uses(t)):
            return Expect('any')
        if not x.vars():
            r = ref.stable_eval(x, hist=self.history())
            if self.rules and self.uses(t) and (r[0] != 'val' or not self.finite(x)):
                return Expect('any')  # a simplified definition may have dropped what fails or overflows
            if r[0] == 'val':
                return Expect('val', r[1])
            if r[0] == 'fail':
                return Expect('error', err=r[1])
            return Expect('any')
        # symbolic: constant parts must be evaluable
        bad = self.first_failing_part(x)
        if bad and self.rules and self.uses(t):
            return Expect('any')
        if bad == 'unknown':
            return Expect('any')
        if bad:
            return Expect('error', err=bad)
        if self.rules:
            return Expect('sym', tree=x)
        return Expect('tree', tree=ref.fold_constants(x, self.history()))

    def finite(self, x):
        """All intermediate values are ordinary numbers"""
        try:
            return abs(ref.evaluate(x, hist=self.history())) < 1e300 and all(map(self.finite, x.c))
        except (ref.Fail, ref.Unknown, OverflowError):
            return False

    def first_failing_part(self, x):
        """Kind of failure if some maximal constant part fails, None if all evaluate, 'unknown'"""
        if not x.vars():
            if x.k == 'n':
                return None
            r = ref.stable_eval(x, hist=self.history())
            return None if r[0] == 'val' else r[1] if r[0] == 'fail' else 'unknown'
        kinds = [self.first_failing_part(c) for c in x.c]
        for k in kinds:
            if k:
                return k if len([q for q in kinds if q]) == 1 else 'unknown' if 'unknown' in kinds else 'any'
        return None

    def expression(self, s):
        try:
            t = self.parse(s)
        except Reject as r:
            return Expect('error', err='syntax', token=r.token, raw=r.kind)
        return self.eval_tree(t)

    # ---------------------------------------------------------------- definitions
    def definition(self, line):
        """(expectation, effect)"""
        left, right = line.split('=', 1)
        toks = [t for t in ref.tokenize(left) if not t.startswith(' ')]
        no = (Expect('error', err='definition'), None)
        if not toks or toks[0][0] not in ref.LETTERS:
            return no
        name = toks[0]
        f = self.funcs()
        if name in f:
            return no
        constant = len(toks) == 1
        try:
            lt = ref.parse(left, dict(f, **{name: 0 if constant else None}))
        except Reject:
            return no
        if lt.k != 'o' or lt.x != 'f' + name:
            return no
        params = []
        for c in lt.c:
            if c.k != 'v' or c.x in params or c.x.startswith('['):
                return no
            params.append(c.x)
        if len(params) > MAX_PARAMS:
            return no
        try:
            rt = ref.parse(right, dict(f, **{name: len(params)}))
        except Reject:
            return no
        if 'f' + name in rt.ops():
            return no
        vs = self.expand(rt).vars()
        unbound = [v for v in vs if v not in params]
        e = self.eval_tree(rt)
        if e.kind == 'error':
            return no
        if unbound and not self.rules:
            return no
        if e.kind == 'any' or unbound:
            # meaning not determined; if it is accepted, the name exists with an undetermined meaning
            return Expect('any'), ('def', name, params, None, False)
        body = self.expand(rt)
        if not self.rules:
            body = ref.fold_constants(body, self.history()) if body.vars() else Node('n', e.v)
            return Expect('silent'), ('def', name, params, body, True)
        try:
            body = self.resolve_history(body)
        except (Fail, Unknown):
            return Expect('any'), ('def', name, params, None, False)
        return Expect('silent'), ('def', name, params, body, self.tame(rt))

    def resolve_history(self, t):
        if t.k != 'o':
            return t
        if t.x in ('fans', 'p@') and not t.vars():
            v = ref.evaluate(t, None, self.history())
            return Node('n', v)
        return Node('o', t.x, [self.resolve_history(c) for c in t.c], t.t)

    # ---------------------------------------------------------------- commands
    def expect(self, line):
        """(expectation, effect) of one input line; effect applies if the command is accepted"""
        if line == '' or line[0] == '#':
            return Expect('silent'), None
        if line in ('help', 'help operators', 'license'):
            return Expect('text'), None
        if line.startswith('table '):
            return Expect('any'), ('table', line)
        if '=' in line:
            return self.definition(line)
        if line == 'clear':
            return Expect('silent'), ('clear',)
        if line.startswith('clear '):
            n = line[6:]
            if n in self.defs:
                return Expect('silent'), ('undef', n)
            return Expect('error', err='clear'), None
        if line.startswith('load '):
            return Expect('any'), ('load', line)
        e = self.expression(line)
        return e, ('hist',)

    def judge(self, line, e, got):
        """None if the observed outcome agrees with the expectation"""
        if e.kind == 'any':
            return None
        if e.kind == 'silent':
            return None if got[0] == 'none' else 'must be accepted silently, got %r' % (got,)
        if e.kind == 'text':
            return None if got[0] == 'out' else 'must print text, got %r' % (got,)
        if e.kind == 'error':
            if got[0] != 'err':
                return 'must be rejected (%s), got %r' % (e.err, got)
            if e.err in MESSAGES and not error_matches(got[1], e.err):
                return 'must be rejected as %s, got %r' % (e.err, got)
            return None
        if e.kind == 'val':
            if got[0] != 'out' or not value_matches(got[1], e.v):
                return 'must be %.12g, got %r' % (e.v, got)
            return None
        if e.kind == 'tree':
            if got[0] == 'out':
                f = self.funcs()
                for n in [n for n in f if n.lower() in ('inf', 'nan', 'infinity')]:
                    del f[n]  # in a printed expression these denote values
                t = parse_output(got[1], f)
                if t is not None and ref.same(ref.norm_neg(t), ref.norm_neg(e.tree), 2e-9):
                    return None
            return 'must be %s, got %r' % (ref.show(e.tree), got)
        if e.kind == 'sym':
            return None if got[0] in ('out', 'err') else 'must be answered, got %r' % (got,)
        raise AssertionError(e.kind)

    def apply(self, line, e, effect, got):
        """Advances the state, following the observation where the model leaves the answer open"""
        ok = got[0] in ('none', 'out')
        if not ok:
            self.failed = True
        if effect is None or not ok:
            return
        if effect[0] == 'clear':
            self.defs.clear()
        elif effect[0] == 'undef':
            del self.defs[effect[1]]
        elif effect[0] == 'def':
            _, name, params, body, tame = effect
            if body is None:
                body = Node('o', 'funknown', ())
            self.defs[name] = (params, body, tame and body.x != 'funknown')
        elif effect[0] == 'table':
            if got[0] == 'out' and b'Fold result: ' in got[1]:
                v = float(got[1].rsplit(b'Fold result: ', 1)[1])
                self.hist.append(v if abs(v) < 1e9 and v == math.floor(v) else None)
        elif effect[0] == 'hist':
            if e.kind == 'val':
                self.hist.append(e.v)
            elif e.kind in ('any', 'sym') and got[0] == 'out':
                t = parse_output(got[1], self.funcs())
                if t is None:
                    self.unknown_hist = True
                elif not t.vars():
                    v = printed_value(got[1])
                    exact = v is not None and abs(v) < 1e9 and v == math.floor(v)
                    self.hist.append(v if exact else None)

    def step(self, line, got):
        e, eff = self.expect(line)
        msg = self.judge(line, e, got)
        self.apply(line, e, eff, got)
        return e, msg
