"""Generator of command sequences."""
import gen, ref

TAME_FN = dict(infix=['+', '-', '*'], prefix=['-', '+'], postfix=['%'], fn1=['sin', 'cos', 'abs', 'atan'], fn2=[], fnn=['max', 'min', 'sum', 'prod'])
SMALL = lambda r: str(r.randint(0, 12)) if r.random() < 0.8 else '%d.%d' % (r.randint(0, 9), r.randint(0, 99))
NAMES = ['f', 'g', 'h', 'ff', 'fg', 'F', 'func', 'fun', 'p', 'pp', 'u_v', 'A', 'B', 'w', 'sinn', 'ma', 'maxx', 'ln_', 'pii', 'E', 'hh', 'k', 'mo', 'mod_', 'Cc', 'x_', 'ansx', 'gc', 'inff', 'helper', 'clearx', 'tables', 'C', 'mod', 'inf_', 'load', 'help', 'RULESET', '[', '_', 'a[b]', ']x']
PARAMS = ['x', 'y', 'z', 'a', 'b', 'c', 'n', 't', 'u', 'q', 'foo', 'xx', 'under_x', 'X', 'under_xy', 'parameter_p', 'parameter_q']


class SessGen:
    def __init__(self, rng, tame=False, names=None, hist=0.15, lit=None):
        self.r = rng
        self.tame = tame
        self.names = names or NAMES
        self.defs = {}
        self.hist = hist
        self.nres = 0
        self.lit = lit

    def gen(self, vars=(), tame=None, hist=None, user=True):
        tame = self.tame if tame is None else tame
        kw = dict(TAME_FN) if tame else {}
        return gen.ExprGen(self.r, vars=vars, userfuncs=list(self.defs.items()) if user else (), lit=self.lit or (SMALL if tame else None),
                           hist=self.hist if hist is None else hist, spaces=0.15, **kw)

    def value(self, size=None):
        r = self.r
        return self.gen().expr(size or r.randint(1, 6))

    def symbolic(self):
        r = self.r
        return self.gen(vars=r.sample(PARAMS, r.randint(1, 3))).expr(r.randint(1, 6))

    def definition(self, name=None, arity=None, body=None):
        r = self.r
        free = [n for n in self.names if n not in self.defs]
        if name is None:
            if not free:
                return self.value()
            name = r.choice(free)
        if arity is None:
            arity = r.choice((0, 0, 1, 1, 1, 2, 2, 3, r.randint(4, 10)))
        ps = r.sample([p for p in PARAMS if p != name and p not in self.defs], min(arity, 9))
        ps += ['v' + chr(97 + i) for i in range(arity - len(ps))]
        if body is None:
            body = self.gen(vars=ps).expr(r.randint(1, 6))
        sp = lambda: ' ' * r.choice((0, 0, 1, 2))
        head = name if arity == 0 and r.random() < 0.8 else name + sp() + '(' + (sp() + ',' + sp()).join(ps) + ')'
        self.defs[name] = arity
        return sp() + head + sp() + '=' + sp() + body

    def bad(self):
        """A command that is certainly or very likely rejected"""
        r = self.r
        k = r.randint(0, 16)
        n = r.choice(list(self.defs) or ['f'])
        if k == 0:
            return gen.mutate(r, self.value()).replace('\n', '')
        if k == 1:
            return '1/0' if r.random() < 0.5 else self.value(2) + ' + 1/0'
        if k == 2:
            return '@%d' % r.randint(50, 1000)
        if k == 3:
            return 'clear ' + r.choice(['nope', 'sin', 'pi', 'x', n + ' ', '', 'f(x)', 'max', '+', '-', 'mod', 'ans', '@', ' ' + n])
        if k == 4:
            return '%s(x) = x +' % r.choice(self.names)
        if k == 5:
            m = r.choice([m for m in self.names if m not in self.defs] or ['zz'])
            return r.choice(['%s(x) = %s(x)', '%s(x, x) = 1', '%s(2) = 3', '%s(x) = x + unboundq', '%s(x) = 1/0', '%s(x)(y) = 2', '%s + 1 = 2',
                             '%s = qq_', '%s(x) = (x', '%s(x,) = 3', '%s(x) = @999', '%s(x) = ', '%s = ', '%s(x) = x = 3', '%s(x,y) = sqrt(-1) x', '%s(x', '%s([x]) = 2',
                             '%s(sin) = 2', '%s(a,b,c,d,f_,g_,h_,i,j,k_,l) = a', '%s(x) = sum(x,)']).replace('%s', m)
        if k == 6:
            return r.choice(['sin(x) = x', 'pi = 3', 'max(a, b) = a', '= 3', '=', '3 = 4', '+ = 2', '(f) = 3', ' = '])
        if k == 7:
            return '%s = 3' % n if self.defs else 'e = 3'
        if k == 8:
            return r.choice(['load ', 'load nofile', 'load simplification nofile', 'load  x', 'load .', 'load simplification '])
        if k == 9:
            return r.choice(['table ', 'table x', 'table x ; 1 ; 2', 'table x;1;2;0', 'table x+y;1;2;1', 'table x;a;2;1', 'table x;1;2;1 fold x', 'table x;1;2;1 fold x+z;1',
                             'table x;1;2;1 fold x;q', 'table x;1;2;1;', 'table ;1;2;1', 'table x;;2;1', 'table x;1;2;1 fold ;1', 'table 1/0;1;2;1', 'table x;1;1/0;1', 'table x;1;2;1 fold 1/0;1', 'table x;1;2;1 fold x+y;'])
        if k == 10:
            return self.value(2) + r.choice([' )', '(', ' +', ',', ' ^', '~', ' sin', '. .', '1.2.3'])
        if k == 11:
            return r.choice(['sqrt(-1)', '(-2)^0.5', 'root(-8,3)', '0^0', '0^-1', 'sum(1,,2)', 'sin()', 'gcd(1)', 'sin(1,2)', 'f_g(', 'C', 'mod 3', '()', ''.join(r.choice('()+*,1x ') for _ in range(6))])
        if k == 12:
            return gen.token_soup(r, r.randint(1, 8))
        if k >= 14:
            return self.broken_definition()
        a = self.defs.get(n)
        if a is None:
            return ')'
        return '%s(%s)' % (n, ','.join(['1'] * (r.choice((a + 1, a + 1, a + 2, a + 3, max(1, a - 1), 1)) if a else 1)))

    def broken_definition(self):
        """A definition with any number of parameters and one thing wrong"""
        r = self.r
        free = [m for m in self.names if m not in self.defs and (m.isalpha() or '_' in m) and m.isidentifier()]
        name = r.choice(free or ['zz'])
        n = r.choice((0, 1, 1, 2, 3, 4, r.randint(5, 10)))
        ps = r.sample([p for p in PARAMS if p != name and p not in self.defs], min(n, 9))
        ps += ['v' + chr(97 + i) for i in range(n - len(ps))]
        body = self.gen(vars=ps).expr(r.randint(1, 6))
        args = lambda m: '(' + ', '.join(self.gen(vars=ps).expr(r.randint(1, 2)) for _ in range(m)) + ')' if m else ''
        k = r.randint(0, 7)
        if k == 0:
            body = r.choice(['%s + %s', '%s * sin(%s)', '%s - (1 + max(2, %s))']) % (body, name + args(n)) if r.random() < 0.5 else '%s + %s' % (name + args(n), body)
        elif k == 1:
            body = '%s + %s' % (body, r.choice(['unbound', 'q_q', 'zzz', name + name]))
        elif k == 2 and n:
            ps[r.randrange(n)] = r.choice(['2', 'sin(1)', 'x + 1', '[x]', '[a', 'pi', '@1', '-x', '', '(x)(y)', 'ps'])
        elif k == 3 and n > 1:
            i, j = r.sample(range(n), 2)
            ps[i] = ps[j]
        elif k == 4:
            body = gen.mutate(r, body).replace('\n', '').replace('=', '')
        elif k == 5:
            body = '%s + %s' % (body, r.choice(['1/0', 'sqrt(-1)', '@99999', 'root(-8, 2)', 'fac(-1)', 'sum()']))
        elif k == 6:
            ps += ['w' + chr(97 + i) for i in range(r.choice((11 - n, 11, 26)))]
        else:
            body = r.choice(['', body + ' +', body + ')', '(' + body, body + ' = 2', '= ' + body])
        return name + ('(' + ', '.join(ps) + ')' if ps else '') + ' = ' + body

    def table(self):
        r = self.r
        e = self.gen(vars=[r.choice(PARAMS)] if r.random() < 0.9 else ()).expr(r.randint(1, 4))
        s = 'table %s ; %d ; %d ; %d' % (e, r.randint(-3, 3), r.randint(-3, 6), r.choice((1, 2, -1)))
        if r.random() < 0.4:
            s += ' fold %s ; %d' % (r.choice(['x+y', 'x*y', 'max(x,y)', 'y', 'x', '2x-y']), r.randint(0, 3))
        return s

    def command(self, bad=0.1, tables=0.04, clears=0.06, define=0.22, symbolic=0.15, helps=0.02):
        r = self.r
        k = r.random()
        for p, f in ((bad, self.bad), (tables, self.table), (clears, self.clear), (define, self.definition), (symbolic, self.symbolic),
                     (helps, lambda: r.choice(['help', 'help operators', 'license', '', '# comment', '#']))):
            if k < p:
                return f()
            k -= p
        return self.value()

    def clear(self):
        r = self.r
        if r.random() < 0.25:
            self.defs.clear()
            return 'clear'
        if not self.defs:
            return 'clear'
        n = r.choice(list(self.defs))
        del self.defs[n]
        return 'clear ' + n

    def session(self, n, **kw):
        return [self.command(**kw) for _ in range(n)]
