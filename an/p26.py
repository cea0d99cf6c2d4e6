"""P26: a point and the lattice shift reported for it always add up to the point that was moved."""
import itertools
import re
from fractions import Fraction
from an import core

STEP = 0
ARR = re.compile(r'\b(LVec|Array2|bArray)\s*<')
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'char', 'bool',
        'signed char', 'unsigned char', 'size_t', 'ind_t', 'brille::ind_t', 'int64_t', 'std::size_t'}
COUNT = itertools.count(1)


def fresh():
    return next(COUNT)


def bare(t):
    return re.sub(r'\b(const|volatile)\b|[&*]', '', t or '').strip()


def isarr(t):
    t = bare(t)
    return bool(re.match(r'(brille::)?(lattice::)?(LVec|Array2|bArray)\s*<', t))


def intarr(t):
    m = re.search(r'(?:LVec|Array2|bArray)\s*<(.*)>', bare(t))
    return bool(m and m.group(1).strip() in INTS)


class Fork(Exception):
    def __init__(self, key, vals):
        self.key, self.vals = key, vals


class Lost(Exception):
    pass


class Changed(Exception):
    pass


# ---- linear combinations of generators with monomial coefficients: {(gen, mono): Fraction} as a sorted tuple
def lin(d):
    return tuple(sorted(((k, c) for k, c in d.items() if c), key=repr))


def gen(g):
    return ((((g), ()), Fraction(1)),)


def ladd(a, b, c=1):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v * c
    return lin(d)


def lscale(a, t, isint):
    if t[0] == 'n':
        return lin({k: v * t[1] for k, v in a})
    if t[0] == 'un' and t[1] == '-':
        return lscale(lscale(a, t[2], isint), ('n', Fraction(-1)), True)
    if t[0] == 'bin' and t[1] == '*':
        return lscale(lscale(a, t[2], termint(t[2])), t[3], termint(t[3]))
    return lin({(g, tuple(sorted(m + ((t, isint),), key=repr))): v for (g, m), v in a})


def lmap(a, f):
    d = {}
    for (g, m), v in a:
        for (h, mm), w in f(g):
            k = (h, tuple(sorted(m + mm, key=repr)))
            d[k] = d.get(k, 0) + v * w
    return lin(d)


def rowgen(g, i):
    h = g[0]
    if h == 'arr':
        return ('row', g, i)
    if h in ('rnd',):
        return ('rnd', g[1], lrow(g[2], i))
    if h == 'trunc':
        return ('trunc', lrow(g[1], i))
    if h == 'lin':
        return (h, g[1], rowgen(g[2], i))
    return g


def lrow(a, i):
    return lmap(a, lambda g: gen(rowgen(g, i)))


def lift(a, i):
    """The combination of arrays whose row i is the combination a; None if a depends on i in another way."""
    def up(g):
        if g[0] == 'row' and g[2] == i:
            return g[1] if not mentions(g[1], i) else None
        if g[0] == 'rnd':
            x = lift(g[2], i)
            return None if x is None else ('rnd', g[1], x)
        if g[0] == 'trunc':
            x = lift(g[1], i)
            return None if x is None else ('trunc', x)
        if g[0] == 'lin':
            x = up(g[2])
            return None if x is None or mentions(g[1], i) else ('lin', g[1], x)
        return None
    d = {}
    for (g, m), v in a:
        u = up(g)
        if u is None or mentions(m, i):
            return None
        d[(u, m)] = d.get((u, m), 0) + v
    return lin(d)


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def syms(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'sym':
            if t not in out:
                out.append(t)
        else:
            for y in t:
                syms(y, out)
    return out


def genint(g):
    return g[0] in ('rnd', 'trunc') or g[0] == 'arr' and g[2] or g[0] == 'row' and genint(g[1]) or g[0] == 'lin' and g[1][0] == 'from' and genint(g[2])


def termint(t):
    return t[0] == 'n' and t[1].denominator == 1 or t[0] == 'sym' and t[2] == 'i' or t[0] == 'call' and t[-1] == 'i' \
        or t[0] == 'bin' and t[1] in '+-*' and termint(t[2]) and termint(t[3]) or t[0] == 'un' and termint(t[2])


INTEGRAL = set()      # combinations known to be integers: the contents of integer arrays


def linint(a):
    return a in INTEGRAL or all(genint(g) and v.denominator == 1 and all(i for _, i in m) for (g, m), v in a)


def trunc(a):
    return a if linint(a) else gen(('trunc', a))


def apply(op, a):
    """A linear map applied to a combination; a change of cell undoes its inverse."""
    def f(g):
        if g[0] == 'lin':
            o = g[1]
            if op[0] == 'from' and o[0] == 'to' and o[1] == op[1] or op[0] == 'to' and o[0] == 'from' and o[1] == op[1]:
                return gen(g[2])
            if o[0] == 'M' and op[0] == 'M' and inverse(op[1], o[1]):
                return gen(g[2])
        return gen(('lin', op, g))
    return lmap(a, f)


def inverse(a, b):
    if a[0] == b[0] == 'call' and a[1] == b[1] == 'transpose':
        return inverse(a[2][0], b[2][0])
    if a[0] == b[0] == 'call' and a[1] == b[1] == 'get' and a[2][0] == b[2][0]:
        p, x, y = a[2][0], a[2][1], b[2][1]
        inv = lambda z: ('call', 'get_inverse_index', (p, z), 'i')
        return x == inv(y) or y == inv(x)
    return False


def show(a):
    def g_(g):
        if g[0] == 'arr':
            return str(g[1][0] if isinstance(g[1], tuple) else g[1])
        if g[0] == 'row':
            return '%s[%s]' % (g_(g[1]), t_(g[2]))
        if g[0] == 'rnd':
            return '%s(%s)' % (g[1], show(g[2]))
        if g[0] == 'trunc':
            return 'int(%s)' % show(g[1])
        if g[0] == 'lin':
            return '%s·%s' % ('·'.join([g[1][0]] + [t_(z) for z in g[1][1:]]) if g[1][0] != 'M' else t_(g[1][1]), g_(g[2]))
        return str(g)[:60]
    return ' + '.join(('%s·' % v if v != 1 else '') + '·'.join([t_(t) for t, _ in m] + [g_(g)]) for (g, m), v in a)[:400] or '0'


def t_(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'sym':
        return 's%d' % t[1]
    if t[0] == 'n':
        return str(t[1])
    if t[0] == 'call':
        return '%s(%s)' % (t[1], ','.join(t_(x) for x in t[2]))
    if t[0] == 'fld':
        return str(t[2])
    if t[0] == 'par':
        return str(t[1])
    if t[0] == 'lin':
        return show(t[1])
    return str(t)[:60]


class St:
    def __init__(self, o=None):
        self.env, self.cells, self.reg, self.rows, self.elems, self.pc = (dict(x) for x in (o.env, o.cells, o.reg, o.rows, o.elems, o.pc)) if o else ({}, {}, {}, {}, {}, {})

    def copy(self):
        return St(self)


class Lv:
    """Path-wise interpreter over linear combinations of the arrays' values; copies and views of an array share its storage."""

    def __init__(self, F):
        self.F = F
        self.budget = 1500000
        self.types = {}
        self.onrows = []
        self.depth = 0
        self.effects = []
        self.models = {}
        self.const = {}

    # ---------------------------------------------------------------- storage
    def newreg(self, s, l, isint, n):
        r = fresh()
        s.reg[r] = (trunc(l) if isint else l, isint, n)
        return ('A', r, None)

    def val(self, s, h):
        _, r, i = h
        l, isint, n = s.reg[r]
        mine = [(k, v) for k, v in s.rows.items() if k[0] == r]
        if i is None:
            return l if not mine else gen(('arr', ('mixed', tuple(sorted(((k[1], v) for k, v in mine), key=repr)), l), isint))
        for k, v in mine:
            if k[1] == i:
                return v
        return lrow(l, i) if not mine else gen(('row', ('arr', ('mixed', r), isint), i))

    def put(self, s, h, l):
        _, r, i = h
        if r in self.const:
            raise Changed('%s is changed in place' % self.const[r])
        o, isint, n = s.reg[r]
        if isint:
            l = trunc(l)
        if i is None:
            s.reg[r] = (l, isint, n)
            for k in [k for k in s.rows if k[0] == r]:
                del s.rows[k]
        elif n == ('n', Fraction(1)) and not any(g[0] == 'arr' for (g, m), v in l):
            s.reg[r] = (l, isint, n)
        else:
            others = [k for k in s.rows if k[0] == r and k[1] != i]
            for k in others:
                del s.rows[k]
            if others:
                s.reg[r] = (gen(('arr', ('mixed', fresh()), isint)), isint, n)
            s.rows[(r, i)] = l

    def setcell(self, s, c, v):
        s.cells[c] = v

    def cellof(self, n, s, create=True):
        """The variable or member an expression names."""
        n = strip(n)
        if n.get('k') == 'ref' and n.get('dk') != 'enum':
            d = n.get('d')
            if d in s.env:
                return s.env[d]
            if not create:
                return None
            c = ('c', d)
            s.env[d] = c
            t = n.get('t', '')
            self.types[c] = t
            if isarr(t):
                s.cells[c] = self.newreg(s, gen(('arr', n.get('n'), intarr(t))), intarr(t), ('call', 'size', (('par', n.get('n')),), 'i'))
            else:
                s.cells[c] = ('par', n.get('n'), d)
            return c
        if n.get('k') == 'mem':
            e = strip(n['e'])
            base = ('this',) if e.get('k') == 'this' else self.cellof(e, s)
            if base is None:
                return None
            c = ('m', base, n['n'])
            if c not in s.cells:
                self.types[c] = n.get('t', '')
                bv = s.cells.get(base)
                if bv is not None and bv[0] == 'PAIR' and n['n'] in ('first', 'second'):
                    s.cells[c] = bv[1 if n['n'] == 'first' else 2]
                elif isarr(n.get('t', '')):
                    s.cells[c] = self.newreg(s, gen(('arr', ('member', n['n']), intarr(n['t']))), intarr(n['t']), ('call', 'size', (('fld', 'this', n['n']),), 'i'))
                else:
                    s.cells[c] = ('fld', 'this' if base == ('this',) else bv or base, n['n'])
            return c
        return None

    def freeze(self, s, v):
        if v[0] == 'A':
            return ('lin', self.val(s, v))
        if v[0] == 'P':
            return ('ptr', self.val(s, ('A',) + v[1:]))
        if v[0] == 'LAM':
            return ('lam', v[1].get('f', ''))
        if v[0] == 'V':
            return ('vec', v[1])
        return v

    # ---------------------------------------------------------------- expressions
    def flag(self, n):
        return 'i' if bare(n.get('t')) in INTS else 'f'

    def rv(self, n, s):
        self.budget -= 1
        if self.budget < 0:
            raise Lost('budget')
        if n is None:
            return ('n', Fraction(0))
        k = n['k']
        if k == 'paren':
            return self.rv(n['e'], s)
        if k == 'cast':
            v = self.rv(n['e'], s)
            if n.get('ck') == 'FloatingToIntegral' and not termint(v):
                return ('call', 'trunc', (v,), 'i')
            if n.get('ck') in ('FloatingToBoolean', 'IntegralToBoolean'):
                return ('bin', '!=', v, ('n', Fraction(0))) if v[0] != 'bin' else v
            return v
        if k == 'int' or k == 'bool':
            v = n['v']
            return ('n', Fraction(int(v) if not isinstance(v, str) or v not in ('true', 'false') else int(v == 'true')))
        if k == 'float':
            try:
                return ('n', Fraction(n['fv']))
            except ValueError:
                return ('call', 'float', (('n', n['fv']),), 'f')
        if k in ('str', 'char'):
            return ('str', str(n.get('s', n.get('v'))))
        if k == 'this':
            return ('this',)
        if k == 'ref':
            if n.get('dk') == 'enum':
                return ('enum', n.get('q', n.get('n')))
            c = self.cellof(n, s)
            return s.cells[c]
        if k == 'mem':
            c = self.cellof(n, s)
            if c is None:
                v = self.rv(n['e'], s)
                if v[0] == 'PAIR' and n['n'] in ('first', 'second'):
                    return v[1 if n['n'] == 'first' else 2]
                return ('fld', self.freeze(s, v), n['n'])
            return s.cells[c]
        if k == 'cond':
            return self.rv(n['a'] if self.truth(n['c'], s) else n['b'], s)
        if k == 'un':
            op = n['op']
            if op in ('++', '--'):
                c = self.cellof(n['e'], s)
                old = s.cells[c] if c else self.rv(n['e'], s)
                new = ('bin', '+' if op == '++' else '-', old, ('n', Fraction(1)))
                if old[0] == 'n':
                    new = ('n', old[1] + (1 if op == '++' else -1))
                if c:
                    self.setcell(s, c, new)
                return old if n.get('post') else new
            v = self.rv(n['e'], s)
            if op in ('*', '&', '+'):
                return v
            if v[0] == 'n' and op == '-':
                return ('n', -v[1])
            if v[0] == 'n' and op == '!':
                return ('n', Fraction(int(not v[1])))
            return ('un', op, self.freeze(s, v))
        if k == 'bin':
            return self.binary(n, s)
        if k == 'init':
            c = n.get('c', [])
            if len(c) == 1 and not isarr(n.get('t')):
                return self.rv(c[0], s)
            return ('call', 'init', tuple(self.freeze(s, self.rv(x, s)) for x in c), 'f')
        if k == 'ctor':
            return self.ctor(n, s)
        if k == 'call':
            return self.call(n, s)
        if k == 'lambda':
            return ('LAM', n)
        return ('call', k, tuple(self.freeze(s, self.rv(x, s)) for x in n.get('c', []) if isinstance(x, dict)), 'f')

    def binary(self, n, s):
        op = n['op']
        if op == '=':
            c = self.cellof(n['a'], s)
            v = self.rv(n['b'], s)
            if c is not None:
                self.setcell(s, c, v)
            else:
                self.element(n['a'], v, s)
            return v
        if op in ('+=', '-=', '*=', '/='):
            c = self.cellof(n['a'], s)
            v = self.rv(n['b'], s)
            if c is not None:
                self.setcell(s, c, ('bin', op[0], s.cells[c], self.freeze(s, v)))
            else:
                self.element(n['a'], ('call', 'updated', (('n', Fraction(fresh())),), 'f'), s)
            return v
        if op == ',':
            self.rv(n['a'], s)
            return self.rv(n['b'], s)
        if op in ('&&', '||'):
            a = self.rv(n['a'], s)
            if a[0] == 'n':
                if bool(a[1]) == (op == '||'):
                    return ('n', Fraction(int(op == '||')))
                return self.rv(n['b'], s)
            return ('bin', op, a, self.rv(n['b'], s)) if not effects(n['b']) else ('n', Fraction(int(self.truth(n, s))))
        a, b = self.freeze(s, self.rv(n['a'], s)), self.freeze(s, self.rv(n['b'], s))
        if a[0] == b[0] == 'n':
            x, y = a[1], b[1]
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<': lambda: int(x < y), '>': lambda: int(x > y), '<=': lambda: int(x <= y),
                 '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y)}.get(op)
            if r:
                return ('n', Fraction(r()))
        if op == '*' and ('n', Fraction(0)) in (a, b):
            return ('n', Fraction(0))
        if op == '==' and a == b:
            return ('n', Fraction(1))
        return ('bin', op, a, b)

    def element(self, n, v, s):
        """x[i] = v"""
        n = strip(n)
        b = i = None
        if n.get('k') == 'call' and n.get('fn') in ('operator[]', 'at'):
            a = n['args'] if n.get('fn') == 'operator[]' else [n['obj']] + n['args']
            b, i = a[0], a[1]
        elif n.get('k') in ('index', 'sub'):
            b, i = n.get('a', n.get('b')), n.get('i', n.get('b'))
        elif n.get('k') == 'mem' or n.get('k') == 'un':
            return
        if b is None:
            return
        c = self.cellof(b, s)
        if c is None:
            return
        cur = s.cells[c]
        if cur[0] == 'A':
            raise Lost('an element of an array of points is assigned')
        s.elems[(c, self.freeze(s, self.rv(i, s)))] = self.freeze(s, v)

    def truth(self, n, s):
        n = strip(n)
        if n.get('k') == 'un' and n['op'] == '!':
            return not self.truth(n['e'], s)
        if n.get('k') == 'bin' and n['op'] in ('&&', '||'):
            a = self.truth(n['a'], s)
            if a == (n['op'] == '||'):
                return a
            return self.truth(n['b'], s)
        return self.decide(self.freeze(s, self.rv(n, s)), s)

    def decide(self, t, s):
        if t[0] == 'n':
            return bool(t[1])
        if t[0] == 'un' and t[1] == '!':
            return not self.decide(t[2], s)
        if t[0] == 'bin' and t[1] in ('&&', '||'):
            a = self.decide(t[2], s)
            return a if a == (t[1] == '||') else self.decide(t[3], s)
        if t[0] == 'bin' and t[1] == '!=' and t[3] == ('n', Fraction(0)):
            return self.decide(t[2], s)
        if t[0] == 'bin' and t[1] == '==' and t[3] == ('n', Fraction(0)):
            return not self.decide(t[2], s)
        if t[0] == 'bin' and t[1] == '!=':
            return not self.decide(('bin', '==', t[2], t[3]), s)
        if t[0] == 'bin' and t[1] == '>':
            t = ('bin', '<', t[3], t[2])
        if t[0] == 'bin' and t[1] == '==' and (t[2][0] == 'enum' or t[3][0] != 'enum' and repr(t[2]) > repr(t[3])):
            t = ('bin', '==', t[3], t[2])
        if t[0] == 'bin' and t[1] == '==' and t[3][0] == 'enum':
            if t[2][0] == 'enum':
                return t[2] == t[3]
            if t not in s.pc and any(v and k[0] == 'bin' and k[1] == '==' and k[2] == t[2] and isinstance(k[3], tuple) and k[3][0] == 'enum' for k, v in s.pc.items()):
                return False
        if t not in s.pc:
            raise Fork(t, (True, False))
        return s.pc[t]

    def ctor(self, n, s):
        t = n.get('cls') or bare(n.get('t'))
        args = [a for a in n.get('args', []) if not a.get('dflt')]
        if isarr(t):
            vals = [self.rv(a, s) for a in args]
            arrs = [(a, v) for a, v in zip(args, vals) if v[0] == 'A']
            if arrs:
                a, v = arrs[-1]
                if intarr(t) == s.reg[v[1]][1] and len(args) != 1 or n.get('copy') or n.get('move') or intarr(t) == s.reg[v[1]][1] and bare(a.get('t')) == bare(t):
                    return v
                return self.newreg(s, self.val(s, v), intarr(t), self.rows_of(s, v))
            nrow = self.freeze(s, vals[2]) if len(vals) > 2 else ('n', Fraction(0))
            if nrow[0] == 'call' and nrow[1] == 'shape':
                nrow = nrow[2][0]
            return self.newreg(s, gen(('arr', ('new', fresh()), intarr(t))), intarr(t), nrow)
        if len(args) == 1 and (n.get('copy') or n.get('move')):
            return self.rv(args[0], s)
        vals = [self.rv(a, s) for a in args]
        if re.match(r'std::(pair|tuple)<', bare(t)) and len(vals) == 2:
            return ('PAIR', vals[0], vals[1])
        if re.match(r'std::(pair|tuple)<', bare(t)) and len(vals) == 1 and vals[0][0] == 'PAIR':
            return vals[0]
        if len(vals) == 1 and vals[0][0] in ('LAM', 'V', 'MAP') or len(vals) == 1 and bare(args[0].get('t')) == bare(t):
            return vals[0]
        if t.startswith('std::vector') and not vals:
            return ('LIST',)
        return ('call', bare(t), tuple(self.freeze(s, v) for v in vals), 'f')

    def rows_of(self, s, v):
        return ('n', Fraction(1)) if v[2] is not None else s.reg[v[1]][2]

    def call(self, n, s):
        fn = n.get('fn') or n.get('n') or ''
        q = n.get('q', '')
        opr = n.get('opr')
        args = n.get('args', [])
        obj = n.get('obj')
        t = n.get('t', '')
        if n.get('fe'):
            cal = self.rv(n['fe'], s)
            if cal[0] == 'LAM':
                return self.enter(cal[1], args, s)
        if opr == '()' and args:
            cal = self.rv(args[0], s)
            if cal[0] == 'LAM':
                return self.enter(cal[1], args[1:], s)
        if fn in self.models:
            r = self.models[fn](n, s)
            if r is not None:
                return r
        # ------- operators of arrays
        if opr in ('+', '-', '*', '/', '+=', '-=', '*=', '/=', '='):
            a = ([obj] if obj is not None else []) + list(args)
            if opr == '=':
                c = self.cellof(a[0], s)
                v = self.rv(a[1], s)
                if c is not None:
                    at = self.types.get(c, a[0].get('t', ''))
                    if v[0] == 'A' and isarr(at) and intarr(at) != s.reg[v[1]][1]:
                        v = self.newreg(s, self.val(s, v), intarr(at), self.rows_of(s, v))
                    elif v[0] == 'A' and self.types.get(c) and not isarr(self.types[c]):
                        pass
                    self.setcell(s, c, v)
                    for o in [o for o in s.cells if o[0] == 'm' and o[1] == c]:
                        del s.cells[o]
                else:
                    h = self.rv(a[0], s) if isarr(a[0].get('t')) else None
                    if h is not None and h[0] == 'A':
                        raise Lost('assignment to a view')
                    self.element(a[0], v, s)
                return v
            vs = [self.rv(x, s) for x in a]
            if any(v[0] == 'A' for v in vs):
                return self.arrop(opr, a, vs, n, s)
            if len(vs) == 2 and opr in ('+=',):
                c = self.cellof(a[0], s)
                if c is not None:
                    self.setcell(s, c, ('call', 'updated', (('n', Fraction(fresh())),), 'f'))
                return vs[0]
        if obj is not None:
            ov = self.rv(obj, s)
            if ov[0] == 'A':
                r = self.member(fn, ov, n, s)
                if r is not None:
                    return r
            elif ov[0] == 'MAP' and fn in ('operator[]', 'at') or ov[0] == 'MAP' and fn in ('data', 'begin'):
                return self.index(ov, self.freeze(s, self.rv(args[-1], s))) if args else ov
            if fn in ('data', 'begin', 'get') and not args and ov[0] in ('V', 'MAP') or fn == 'data' and not args:
                return ov
            if fn in ('push_back', 'emplace_back') and len(args) == 1:
                c = self.cellof(obj, s)
                v = self.freeze(s, self.rv(args[0], s))
                if c is not None and ov[0] == 'LIST':
                    self.setcell(s, c, ov + (v,))
                    return ov
                if c is not None:
                    self.setcell(s, c, ('call', 'appended', (('n', Fraction(fresh())),), 'f'))
                return ov
        if fn == 'operator[]' and len(args) == 2:
            b = self.rv(args[0], s)
            i = self.freeze(s, self.rv(args[1], s))
            c = self.cellof(args[0], s, False)
            if c is not None and (c, i) in s.elems:
                return s.elems[(c, i)]
            if b[0] == 'MAP' or b[0] == 'call' and b[1] == 'getall':
                return self.index(b, i)
        if fn in ('first', 'get') and False:
            pass
        if q.startswith('std::make_pair') or q.startswith('std::make_tuple') and len(args) == 2:
            v = [self.rv(a, s) for a in args]
            return ('PAIR', v[0], v[1])
        if q.startswith('std::move') or q.startswith('std::forward') or q.startswith('std::as_const') or q.startswith('std::ref'):
            if len(args) == 1:
                return self.rv(args[0], s)
        if q.startswith('std::transform') and len(args) == 4:
            src, dst, f = strip(args[0]), strip(args[2]), self.rv(args[3], s)
            while dst.get('k') == 'ctor' and len(dst.get('args', [])) == 1:
                dst = strip(dst['args'][0])
            while src.get('k') == 'ctor' and len(src.get('args', [])) == 1:
                src = strip(src['args'][0])
            if dst.get('fn') in ('back_inserter', 'begin') and src.get('obj') is not None and f[0] == 'LAM':
                c = self.cellof(dst['args'][0] if dst['fn'] == 'back_inserter' else dst['obj'], s)
                base = self.freeze(s, self.rv(src['obj'], s))
                hole = ('sym', fresh(), 'i')
                if c is not None:
                    self.setcell(s, c, ('MAP', base, hole, self.freeze(s, self.enter(f[1], [('value', self.index(base, hole))], s))))
                    return ('n', Fraction(0))
        if fn in ('s2u', 'u2s') and len(args) == 1:
            return self.rv(args[0], s)
        if fn in ('multiply_matrix_vector', 'mul_mat_vec'):
            a = args if fn == 'multiply_matrix_vector' else [args[0], args[2], args[3]]
            return self.matvec(a, s)
        if fn in ('parallel_transform_to_primitive', 'transform_to_primitive', 'parallel_transform_from_primitive', 'transform_from_primitive') and not self.opened(fn):
            lat = self.freeze(s, self.rv(args[0], s))
            v = self.rv(args[1], s)
            if v[0] == 'A':
                op = ('to' if '_to_' in fn else 'from', lat)
                l = apply(op, self.val(s, v))
                if op[0] == 'from' and s.reg[v[1]][1]:
                    INTEGRAL.add(l)
                return self.newreg(s, l, intarr(t), self.rows_of(s, v))
        if fn == 'from_std_like' and len(args) == 2:
            v = self.rv(args[1], s)
            if v[0] == 'V':
                return self.newreg(s, v[1], intarr(t), ('n', Fraction(1)))
        if fn == 'a2py' and len(args) == 1:
            return self.rv(args[0], s)
        g = self.F.funcs.get(n.get('f'))
        if g is not None and g.get('body') and self.worth(g) and self.depth < 5:
            return self.enter(g, args, s, obj)
        return self.opaque(fn, n, s)

    def opened(self, fn):
        return getattr(self, 'open', None) == fn

    def worth(self, g):
        """Functions which may change an array of points, or pass one on."""
        if 'bz_move.cpp' in g.get('file', '') or g.get('file', '').endswith('bz_move.cpp'):
            return any(isarr(p.get('t')) for p in g['params']) or any(p.get('t', '').endswith('&') and 'const' not in p['t'] for p in g['params'])
        return False

    def index(self, b, i):
        if b[0] == 'MAP':
            return subst(b[3], b[2], i)
        if b[0] == 'call' and b[1] == 'getall':
            return ('call', 'get', (b[2][0], i), 'f')
        return ('call', 'at', (b, i), 'f')

    def matvec(self, a, s):
        d, m, x = a
        M = self.freeze(s, self.rv(m, s))
        xv = self.rv(x, s)
        if xv[0] == 'P':
            l = self.val(s, ('A',) + xv[1:])
        elif xv[0] == 'V':
            l = xv[1]
        else:
            l = gen(('arr', ('?', xv), False))
        l = apply(('M', M), l)
        dn = strip(d)
        dv = self.rv(d, s)
        if dv[0] == 'P':
            self.put(s, ('A',) + dv[1:], l)
        else:
            while dn.get('k') == 'call' and dn.get('fn') in ('data', 'begin') and dn.get('obj'):
                dn = strip(dn['obj'])
            c = self.cellof(dn, s)
            if c is not None:
                self.setcell(s, c, ('V', l))
        return ('n', Fraction(0))

    def arrop(self, opr, a, vs, n, s):
        op = opr[0]
        inplace = len(opr) == 2
        x = vs[0]
        isint = intarr(n.get('t'))
        if len(vs) == 1:
            return self.newreg(s, lscale(self.val(s, x), ('n', Fraction(-1)), True) if op == '-' else self.val(s, x), isint, self.rows_of(s, x))
        y = vs[1]
        l = None
        if x[0] == y[0] == 'A':
            if op in '+-':
                xl, yl = self.val(s, x), self.val(s, y)
                l = ladd(xl, yl, 1 if op == '+' else -1)
        elif op == '*' or op == '/' and x[0] == 'A' and y[0] == 'n' and y[1]:
            h, k, kn = (x, y, a[1]) if x[0] == 'A' else (y, x, a[0])
            k = self.freeze(s, k)
            if op == '/':
                k = ('n', 1 / k[1])
            l = lscale(self.val(s, h), k, termint(k))
        if l is None:
            l = gen(('arr', ('op', op, tuple(self.freeze(s, v) for v in vs)), isint))
        if inplace:
            if x[0] != 'A':
                raise Lost('in-place operation')
            self.put(s, x, l)
            return x
        h = x if x[0] == 'A' else y
        nr = self.rows_of(s, h)
        if y[0] == 'A' and nr == ('n', Fraction(1)):
            nr = self.rows_of(s, y)
        return self.newreg(s, l, isint, nr)

    def member(self, fn, ov, n, s):
        args = [a for a in n.get('args', []) if not a.get('dflt')]
        t = n.get('t', '')
        if fn in ('view',):
            if len(args) == 0:
                return ov
            if len(args) == 1 and bare(args[0].get('t')) in INTS:
                i = self.freeze(s, self.rv(args[0], s))
                return ('A', ov[1], i) if ov[2] is None else ov
        if fn in ('extract', 'row') and len(args) == 1 and bare(args[0].get('t')) in INTS and ov[2] is None:
            return self.newreg(s, self.val(s, ('A', ov[1], self.freeze(s, self.rv(args[0], s)))), intarr(t), ('n', Fraction(1)))
        if fn in ('decouple', '_decouple', 'contiguous_copy', 'contiguous_row_ordered_copy'):
            return self.newreg(s, self.val(s, ov), s.reg[ov[1]][1], self.rows_of(s, ov))
        if fn == 'ptr' and len(args) <= 1:
            if not args:
                return ('P', ov[1], ov[2])
            return ('P', ov[1], self.freeze(s, self.rv(args[0], s)) if ov[2] is None else ov[2])
        if fn in ('round', 'floor', 'ceil') and not args:
            l = self.val(s, ov)
            return self.newreg(s, l if linint(l) else gen(('rnd', fn, l)), True, self.rows_of(s, ov))
        if fn == 'set' and len(args) == 2:
            i = self.freeze(s, self.rv(args[0], s))
            v = self.rv(args[1], s)
            if v[0] == 'A':
                self.put(s, ('A', ov[1], i), self.val(s, v))
            elif v[0] == 'V':
                self.put(s, ('A', ov[1], i), v[1])
            else:
                self.put(s, ('A', ov[1], i), gen(('arr', ('set', self.freeze(s, v)), s.reg[ov[1]][1])))
            return ('n', Fraction(1))
        if fn == 'size' and len(args) == 1 and ov[2] is None:
            return self.rows_of(s, ov)
        if fn == 'shape' and not args:
            return ('call', 'shape', (self.rows_of(s, ov),), 'f')
        if fn == 'resize' and args:
            c = self.cellof(n['obj'], s)
            sh = self.freeze(s, self.rv(args[0], s))
            nr = sh[2][0] if sh[0] == 'call' and sh[1] == 'shape' else sh
            h = self.newreg(s, gen(('arr', ('new', fresh()), s.reg[ov[1]][1])), s.reg[ov[1]][1], nr)
            if c is None:
                raise Lost('resize')
            self.setcell(s, c, h)
            return h
        if fn == 'lattice':
            return ('call', 'lattice', (('reg', ov[1]),), 'f')
        if fn == 'type':
            return ('call', 'type', (('reg', ov[1]),), 'f')
        if fn == 'subItr':
            return ('ROWS', ov[1])
        if fn in ('operator[]', 'val') and len(args) == 1:
            return ('call', fn, (self.freeze(s, ov), self.freeze(s, self.rv(args[0], s))), self.flag(n))
        return None

    def opaque(self, fn, n, s):
        vals = []
        pt = n.get('pt', [])
        args = n.get('args', [])
        obj = n.get('obj')
        if obj is not None:
            vals.append(self.freeze(s, self.rv(obj, s)))
        av = [self.rv(a, s) for a in args]
        vals += [self.freeze(s, v) for v in av]
        if fn == 'get' and len(vals) == 2 and 'PointSymmetry' in (n.get('cls') or ''):
            return ('call', 'get', tuple(vals), 'f')
        # effects through non-constant references
        off = len(args) - len(pt)
        for k, a in enumerate(args):
            p = pt[k - off] if 0 <= k - off < len(pt) else ''
            if p.endswith('&') and not p.endswith('&&') and 'const' not in p or p.endswith('*') and 'const' not in p:
                if fn in ('begin', 'end', 'size', 'move', 'data', 'operator<<', 'swap') and fn != 'swap':
                    continue
                v = av[k]
                if v[0] in ('A', 'P'):
                    self.put(s, ('A',) + v[1:], gen(('arr' if v[2] is None else 'row', ('effect', fn, fresh()), s.reg[v[1]][1])) if v[2] is None
                             else gen(('row', ('arr', ('effect', fn, fresh()), s.reg[v[1]][1]), v[2])))
                    continue
                c = self.cellof(a, s, False)
                if c is not None and not isinstance(v, str) and v[0] not in ('LAM',):
                    self.setcell(s, c, ('sym', fresh(), 'f'))
        if obj is not None and fn in ('resize', 'clear', 'reserve', 'assign', 'fill'):
            c = self.cellof(obj, s)
            if c is not None and fn != 'reserve':
                for k in [k for k in s.elems if k[0] == c]:
                    del s.elems[k]
                self.setcell(s, c, ('sym', fresh(), 'f'))
            return ('n', Fraction(0))
        term = ('call', fn, tuple(vals), self.flag(n))
        if isarr(n.get('t')):
            return self.newreg(s, gen(('arr', term, intarr(n['t']))), intarr(n['t']), ('call', 'size', (term,), 'i'))
        return term

    # ---------------------------------------------------------------- calls followed
    def enter(self, g, args, s, obj=None):
        if g.get('generic'):
            for x in g.get('specs', []):
                if x in self.F.funcs and self.F.funcs[x].get('body'):
                    g = self.F.funcs[x]
                    break
        params = g['params']
        key = ('choice', g.get('f') or id(g), tuple(a.get('l', 0) if isinstance(a, dict) else 0 for a in args), self.depth)
        t = s.copy()
        for p, a in zip(params, args):
            pt = p.get('t', '')
            if isinstance(a, tuple):
                v, c = a[1], None
            else:
                v = self.rv(a, t)
                c = self.cellof(a, t) if pt.endswith('&') and strip(a).get('k') in ('ref', 'mem') else None
            if c is None or pt.endswith('&') and isarr(pt) and isarr(self.types.get(c, pt)) and intarr(pt) != intarr(self.types.get(c, pt)):
                c = ('c', p['d'], fresh())
                t.cells[c] = v
            t.env[p['d']] = c
            self.types.setdefault(c, pt)
        for p in params[len(args):]:
            c = ('c', p['d'], fresh())
            t.cells[c] = ('par', p.get('n'), p['d'])
            t.env[p['d']] = c
        self.depth += 1
        try:
            outs = self.exec(g['body'], t)
        finally:
            self.depth -= 1
        outs = [(k, v, x) for k, v, x in outs if k in ('return', 'next')]
        if not outs:
            raise Dead()
        i = 0
        if len(outs) > 1:
            if key not in s.pc:
                raise Fork(key, tuple(range(len(outs))))
            i = s.pc[key]
            if i >= len(outs):
                raise Lost('paths')
        k, v, x = outs[i]
        s.env.update({d: c for d, c in x.env.items() if d in s.env})
        s.cells, s.reg, s.rows, s.elems = x.cells, x.reg, x.rows, x.elems
        for kk, vv in x.pc.items():
            s.pc.setdefault(kk, vv)
        return v if v is not None else ('n', Fraction(0))

    # ---------------------------------------------------------------- statements
    def branch(self, s, f):
        """Every way an action can go: [(result, state)]."""
        out, work = [], [s]
        while work:
            t = work.pop()
            u = t.copy()
            try:
                r = f(u)
                for k in [k for k in u.pc if k[0] == 'choice']:
                    del u.pc[k]
                out.append((r, u))
            except Fork as e:
                for v in e.vals:
                    w = t.copy()
                    w.pc[e.key] = v
                    work.append(w)
            except Dead:
                pass
            if len(out) + len(work) > 400:
                raise Lost('too many paths')
        return out

    def exec(self, n, s):
        if n is None:
            return [('next', None, s)]
        k = n['k']
        if k == 'block':
            cur, done = [s], []
            for c in n['c']:
                nxt = []
                for x in cur:
                    for o in self.exec(c, x):
                        (nxt if o[0] == 'next' else done).append(o if o[0] != 'next' else o[2])
                cur = nxt
                if len(cur) > 400:
                    raise Lost('too many paths')
            return done + [('next', None, x) for x in cur]
        if k == 'null':
            return [('next', None, s)]
        if k == 'omp':
            return self.exec(n.get('body'), s)
        if k == 'decl':
            def f(t):
                for v in n['c']:
                    self.decl(v, t)
            return [('next', None, t) for _, t in self.branch(s, f)]
        if k == 'return':
            return [('return', v, t) for v, t in self.branch(s, lambda t: self.rv(n['e'], t) if n.get('e') else None)]
        if k == 'throw' or k == 'call' and n.get('noret'):
            return [('throw', None, s)]
        if k == 'break':
            return [('break', None, s)]
        if k == 'continue':
            return [('continue', None, s)]
        if k == 'if':
            pre = [s]
            if n.get('init'):
                pre = [o[2] for o in self.exec(n['init'], s)]
            out = []
            for p in pre:
                if n.get('cvar'):
                    self.decl(n['cvar'], p)
                for c, t in self.branch(p, lambda t: self.truth(n['cond'], t)):
                    b = n['then'] if c else n.get('else')
                    out += self.exec(b, t) if b else [('next', None, t)]
            return out
        if k == 'for':
            out = []
            for o in self.exec(n.get('init'), s):
                out += self.loop(n, o[2], n.get('cond'), n['body'], n.get('inc'), self.counter(n, o[2]))
            return out
        if k == 'while':
            return self.loop(n, s, n['cond'], n['body'], None, None)
        if k == 'do':
            out = []
            for o in self.exec(n['body'], s):
                if o[0] in ('next', 'continue'):
                    out += self.loop(n, o[2], n['cond'], n['body'], None, None)
                elif o[0] == 'break':
                    out.append(('next', None, o[2]))
                else:
                    out.append(o)
            return out
        if k == 'forrange':
            return self.forrange(n, s)
        if k == 'switch':
            return self.switch(n, s)
        if k == 'try':
            return self.exec(n['body'], s)
        if k in ('goto', 'label'):
            raise Lost(k)
        return [('next', None, t) for _, t in self.branch(s, lambda t: self.rv(n, t) and None)]

    def decl(self, v, s):
        t = v.get('t', '')
        if v.get('k') != 'var':
            return
        init = v.get('init')
        val = None
        if init is not None:
            i = strip(init)
            if t.endswith('&'):
                while i.get('k') == 'cond':
                    i = strip(i['a'] if self.truth(i['c'], s) else i['b'])
                c = self.cellof(i, s)
                if c is not None:
                    s.env[v['d']] = c
                    return
            val = self.rv(init, s)
            if isarr(t) and val[0] == 'A' and intarr(t) != s.reg[val[1]][1]:
                val = self.newreg(s, self.val(s, val), intarr(t), self.rows_of(s, val))
            if val[0] == 'call' and val[1] == 'init' and not val[2]:
                val = ('n', Fraction(0))
        else:
            val = ('LIST',) if t.startswith('std::vector') else ('sym', fresh(), 'i' if bare(t) in INTS else 'f')
        c = ('c', v['d'])
        s.env[v['d']] = c
        self.types[c] = t
        self.setcell(s, c, val)
        for o in [o for o in s.cells if o[0] == 'm' and o[1] == c]:
            del s.cells[o]
        for o in [o for o in s.elems if o[0] == c]:
            del s.elems[o]
        for j, b in enumerate(v.get('bind', [])):
            bc = ('c', b['d'])
            s.env[b['d']] = bc
            self.types[bc] = b.get('t', '')
            bv = val[1 + j] if val[0] == 'PAIR' and j < 2 else ('call', 'bound', (self.freeze(s, val), ('n', Fraction(j))), 'f')
            if bv[0] != 'A' and (isarr(b.get('t')) or isarr((b.get('e') or {}).get('t'))):
                tt = b.get('t') or b['e']['t']
                bv = self.newreg(s, gen(('arr', bv, intarr(tt))), intarr(tt), ('call', 'size', (bv,), 'i'))
            s.cells[bc] = bv
            e = b.get('e')
            if e and e.get('d') is not None:
                s.env[e['d']] = bc

    def switch(self, n, s):
        out = []
        groups, cur = [], None
        body = n['body']['c'] if n['body'].get('k') == 'block' else [n['body']]

        def flat(x):
            while x.get('k') in ('case', 'default'):
                yield ('label', x)
                x = x.get('body') or {'k': 'null'}
            yield ('stmt', x)
        seq = [y for x in body for y in flat(x)]
        for v, t in self.branch(s, lambda t: self.freeze(t, self.rv(n['cond'], t))):
            rest = []
            hit = False
            for idx, (kind, x) in enumerate(seq):
                if kind != 'label' or x['k'] == 'default':
                    continue
                cv = self.rv(x['val'], t)
                key = ('bin', '==', v, cv)
                u = t.copy()
                if any(u.pc.get(('bin', '==', v, o)) for o in rest if o != cv) or u.pc.get(key) is False:
                    rest.append(cv); continue
                if v[0] in ('enum', 'n') and v != cv:
                    rest.append(cv); continue
                u.pc[key] = True
                for o in rest:
                    u.pc[('bin', '==', v, o)] = False
                rest.append(cv)
                out += self.tail(seq[idx + 1:], u)
                hit = hit or v == cv
            u = t.copy()
            for o in rest:
                if u.pc.get(('bin', '==', v, o)):
                    hit = True
                u.pc[('bin', '==', v, o)] = False
            if not hit:
                d = [i for i, (kind, x) in enumerate(seq) if kind == 'label' and x['k'] == 'default']
                out += self.tail(seq[d[0] + 1:], u) if d else [('next', None, u)]
        return out

    def tail(self, seq, s):
        r = self.exec({'k': 'block', 'c': [x for k, x in seq if k == 'stmt']}, s)
        return [('next' if k == 'break' else k, v, t) for k, v, t in r]

    # ---------------------------------------------------------------- loops
    def counter(self, n, s):
        """(cell, upper limit) of a loop counting upwards by one from zero."""
        c, inc = strip(n.get('cond') or {}), strip(n.get('inc') or {})
        if c.get('k') == 'bin' and c['op'] in ('<', '!=') and inc.get('k') == 'un' and inc['op'] == '++':
            a = self.cellof(c['a'], s, False)
            if a is not None and self.cellof(inc['e'], s, False) == a and s.cells[a] == ('n', Fraction(0)):
                return a, c['b']
        return None

    def forrange(self, n, s):
        v = n['var']
        outs = []
        for b, t in self.branch(s, lambda t: self.rv(n['range'], t)):
            if b[0] == 'ROWS':
                hi = t.reg[b[1]][2]
                sym = ('sym', fresh(), 'i')
                item, base = sym, None
            else:
                base = self.freeze(t, b)
                sym = ('sym', fresh(), 'i')
                item = ('row', b, sym) if b[0] == 'A' else self.index(base, sym)
                hi = t.reg[b[1]][2] if b[0] == 'A' else ('call', 'size', (base,), 'i')
            if b[0] == 'A':
                raise Lost('range over an array')
            c = ('c', v['d'])
            t.env[v['d']] = c
            self.types[c] = v.get('t', '')
            t.cells[c] = item
            # a list built from one value per element
            r = self.exec(n['body'], t.copy())
            grown = [x for x in t.cells if t.cells[x] == ('LIST',)]
            if len(r) == 1 and r[0][0] == 'next':
                ch = [x for x in t.cells if r[0][2].cells.get(x) != t.cells[x]]
                if len(ch) == 1 and ch[0] in grown and len(r[0][2].cells[ch[0]]) == 2 and r[0][2].reg == t.reg and r[0][2].rows == t.rows:
                    t.cells[ch[0]] = ('MAP', base, sym, r[0][2].cells[ch[0]][1])
                    outs.append(('next', None, t)); continue
            outs += self.loop(n, t, None, n['body'], None, None, rng=(c, item, sym, hi))
        return outs

    def changed(self, a, b):
        m = set()
        for c, v in a.cells.items():
            if b.cells.get(c, v) != v:
                m.add(('cell', c))
        for r, v in a.reg.items():
            if b.reg[r] != v:
                m.add(('reg', r))
        for k in set(a.rows) | set(b.rows):
            if a.rows.get(k) != b.rows.get(k) and k[0] in a.reg:
                m.add(('row',) + k)
        for k in set(a.elems) | set(b.elems):
            if a.elems.get(k) != b.elems.get(k) and k[0] in a.cells:
                m.add(('elem',) + k)
        return m

    def havoc(self, s, M, i=None, keep=()):
        h = s.copy()
        for x in M:
            if x[0] == 'cell':
                if x[1] in keep:
                    continue
                v = s.cells[x[1]]
                if v[0] == 'A':
                    isint = s.reg[v[1]][1]
                    h.cells[x[1]] = self.newreg(h, gen(('arr', ('loop', fresh()), isint)), isint, s.reg[v[1]][2])
                elif v[0] == 'V':
                    h.cells[x[1]] = ('V', gen(('arr', ('loop', fresh()), False)))
                else:
                    h.cells[x[1]] = ('sym', fresh(), 'i' if bare(self.types.get(x[1], '')) in INTS else 'f')
            elif x[0] == 'reg' or x[0] == 'row' and x[2] != i:
                l, isint, n = s.reg[x[1]]
                g = ('arr', ('loop', fresh()), isint)
                h.reg[x[1]] = (gen(g) if not any(y[0][0][0] == 'row' for y in l) else gen(('row', g, ('n', Fraction(0)))), isint, n)
                for k in [k for k in h.rows if k[0] == x[1]]:
                    del h.rows[k]
            elif x[0] == 'elem' and x[2] != i:
                h.elems.pop((x[1], x[2]), None)
        return h

    def iterate(self, h, cond, body, inc, var, rng):
        """One iteration: (states leaving, states coming back, other exits, state in the body)."""
        leave, back, outs = [], [], []
        ins = []
        if rng is not None or var is not None:
            ins = [h]
            leave = []
        elif cond is None:
            ins = [h]
        else:
            for c, t in self.branch(h, lambda t: self.truth(cond, t)):
                (ins if c else leave).append(t)
        for t in ins:
            for k, v, x in self.exec(body, t):
                if k == 'break':
                    leave.append(x)
                elif k in ('next', 'continue'):
                    if inc is not None and var is None:
                        for _, y in self.branch(x, lambda y: self.rv(inc, y) and None):
                            back.append(y)
                    else:
                        back.append(x)
                else:
                    outs.append((k, v, x))
        return leave, back, outs

    def loop(self, n, s, cond, body, inc, var, rng=None):
        if var is not None:
            vc, hin = var
            hi = self.freeze(s, self.rv(hin, s))
            i = ('sym', fresh(), 'i')
        elif rng is not None:
            vc, item, i, hi = rng
        else:
            vc = i = hi = None

        def head(st, sym=None):
            st = st.copy()
            if vc is not None:
                sym = sym or i
                st.cells[vc] = sym if rng is None else subst(item, i, sym)
                st.pc[('bin', '<', sym, hi)] = True
            return st
        M = set()
        for _ in range(10):
            h = head(self.havoc(s, M, i))
            leave, back, outs = self.iterate(h, cond, body, inc, var, rng)
            new = set()
            for x in leave + back:
                new |= self.changed(h, x)
            new = {x for x in new if x[0] != 'cell' or x[1] != vc}
            if vc is not None and any(x.cells.get(vc) != h.cells[vc] for x in back):
                raise Lost('the loop counter is changed in the body')
            if new <= M:
                break
            M |= new
        else:
            raise Lost('loop')
        out = list(outs)
        start = next(COUNT)
        # row by row
        if i is not None and all(x[0] == 'cell' and s.cells[x[1]][0] != 'A' or x[0] in ('row', 'elem') and x[2] == i for x in M) \
                and any(x[0] in ('row', 'elem') for x in M) and not leave:
            for f in self.onrows:
                f(self, n, i, hi, h, back)
            o = self.havoc(s, {x for x in M if x[0] == 'cell'}, i)
            rids = sorted({x[1] for x in M if x[0] == 'row'})
            vals = {r: [b.rows.get((r, i)) if (r, i) in b.rows else lrow(h.reg[r][0], i) for b in back] for r in rids}
            new = {}
            for r in rids:
                l, isint, nn = s.reg[r]
                u = lift(vals[r][0], i) if all(v == vals[r][0] for v in vals[r]) and nn == hi else None
                new[r] = u if u is not None else gen(('arr', ('rows', fresh()), isint))
            for a, b in itertools.combinations(rids, 2):
                if s.reg[a][2] != hi or s.reg[b][2] != hi:
                    continue
                for c in (1, -1):
                    E = [ladd(x, y, c) for x, y in zip(vals[a], vals[b])]
                    if all(e == E[0] for e in E):
                        L = lift(E[0], i)
                        if L is not None:
                            new[b] = lscale(ladd(L, new[a], -1), ('n', Fraction(c)), True)
                            break
            for r in rids:
                o.reg[r] = (new[r],) + s.reg[r][1:]
                if s.reg[r][1]:
                    INTEGRAL.add(new[r])
            for x in M:
                if x[0] == 'elem':
                    o.elems.pop((x[1], x[2]), None)
                    o.cells[x[1]] = ('sym', fresh(), 'f')
            if vc is not None and rng is None:
                o.cells[vc] = hi
            return [('next', None, o)] + out
        # every order of iterations, if there are finitely many outcomes
        r = self.disjoint(s, M, head, cond, body, inc, var, rng, start, vc)
        if r is not None:
            return r
        # one generic iteration from an arbitrary state, keeping sums or differences the body keeps
        h = head(self.havoc(s, M, i))
        inv = {}
        # variables bound to values rather than storage
        ids = {}
        for x in M:
            if x[0] == 'cell' and h.cells[x[1]][0] == 'A':
                ids[x] = lambda st, c=x[1]: self.val(st, st.cells[c])
            elif x[0] == 'reg':
                ids[x] = lambda st, r=x[1]: self.val(st, ('A', r, None))
            elif x[0] == 'row':
                ids[x] = lambda st, r=x[1], k=x[2]: self.val(st, ('A', r, k))
        for st_ in range(3):
            leave, back, outs = self.iterate(h, cond, body, inc, var, rng)
            done = set(y for p in inv for y in p)
            add = None
            for a, b in itertools.combinations(sorted(ids, key=repr), 2):
                if a in done or b in done:
                    continue
                for c in (1, -1):
                    base = ladd(ids[a](h), ids[b](h), c)
                    if all(ladd(ids[a](x), ids[b](x), c) == base for x in back + leave):
                        add = (a, b, c)
                        break
                if add:
                    break
            if not add:
                break
            a, b, c = add
            inv[(a, b)] = c
            E = ladd(ids[a](s), ids[b](s), c)
            l = lscale(ladd(E, ids[a](h), -1), ('n', Fraction(c)), True)
            if b[0] == 'cell':
                hd = h.cells[b[1]]
            elif b[0] == 'reg':
                hd = ('A', b[1], None)
            else:
                hd = ('A', b[1], b[2])
            r = hd[1]
            # the relation determines the second value; it is stored as it is (no conversion)
            if h.reg[r][1]:
                INTEGRAL.add(l)
            if hd[2] is None:
                h.reg[r] = (l,) + h.reg[r][1:]
            else:
                h.rows[(r, hd[2])] = l
        leave, back, outs = self.iterate(h, cond, body, inc, var, rng)
        if i is not None:
            leave = leave + [self.havoc(s, set())] + back
        return [('next', None, x) for x in leave] + outs

    def disjoint(self, s, M, head, cond, body, inc, var, rng, start, vc):
        keep = {x[1] for x in M if x[0] == 'cell' and bare(self.types.get(x[1], '')) == 'bool'}
        if any(x[0] == 'cell' and s.cells[x[1]][0] == 'A' for x in M):
            return None
        scal = {x for x in M if x[0] == 'cell'}

        def norm(st):
            st = st.copy()
            for c in [c for c in st.cells if c not in s.cells]:
                del st.cells[c]
            for r in [r for r in st.reg if r not in s.reg]:
                del st.reg[r]
            for k in [k for k in st.pc if any(x[1] > start for x in syms(k, []))]:
                del st.pc[k]
            return st

        def canon(st):
            d = (tuple(sorted(((c, v) for c, v in st.cells.items() if ('cell', c) not in M or c in keep), key=repr)),
                 tuple(sorted(st.reg.items())), tuple(sorted(st.rows.items(), key=repr)), tuple(sorted(st.elems.items(), key=repr)))
            r = {}
            for x in syms(d, []):
                if x[1] > start:
                    r[x] = ('sym', -len(r) - 1, x[2])
            return substmany(d, r)
        work, seen, out = [norm(s)], {canon(norm(s))}, []
        count = 0
        final = []
        while work:
            st = work.pop()
            count += 1
            if count > 6:
                return None
            h = self.havoc(st, scal, None, keep)
            if vc is not None:
                final.append(h)
                h = head(h, ('sym', fresh(), 'i'))
            leave, back, outs = self.iterate(h, cond, body, inc, var, rng)
            out += outs
            final += leave
            for b in back:
                b = norm(b)
                k = canon(b)
                if k not in seen:
                    seen.add(k)
                    work.append(b)
        return [('next', None, x) for x in final] + out


class Dead(Exception):
    pass


def effects(n):
    return any(x.get('k') == 'un' and x.get('op') in ('++', '--') or x.get('k') == 'bin' and x.get('op') in ('=', '+=', '-=') for x in core.walk(n))


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def substmany(t, r):
    if isinstance(t, tuple):
        if t in r:
            return r[t]
        return tuple(substmany(x, r) for x in t)
    return t


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren') and n.get('ck') not in ('FloatingToIntegral',) and n.get('e') is not None:
        n = n['e']
    return n or {}


# ------------------------------------------------------------------------------------------------ the property
RULE = {'conserve': 'on every path on which moveinto returns, the moved point plus the shift is the point given, and the point given is left as it was',
        'rotate': 'after ir_moveinto the operation reported takes the moved point back (Rᵀq + τ = Q), and the second list is its inverse',
        'wedge': 'after ir_moveinto_wedge the operation reported takes the moved point back (Rᵀq = Q)',
        'cell': 'changes to and from the primitive cell apply mutually inverse matrices to every vector, for both kinds of lattice, in the serial and parallel versions',
        'results': 'what Python receives is the moved point first and its shift second'}


def bind(L, f, s):
    for p in f['params']:
        d, t = p['d'], p.get('t', '')
        c = ('c', d)
        s.env[d] = c
        L.types[c] = t
        s.cells[c] = L.newreg(s, gen(('arr', p['n'], intarr(t))), intarr(t), ('call', 'size', (('par', p['n']),), 'i')) if isarr(t) else ('par', p['n'], d)
        if isarr(t) and t.startswith('const'):
            L.const[s.cells[c][1]] = p['n']
    return [('c', p['d']) for p in f['params']]


class Run:
    def __init__(self, C, F):
        self.C, self.F = C, F

    def where(self, f):
        return '%s:%s' % (f.get('file', '').replace(core.REPO + '/', ''), f['l'])

    def moveinto(self, f):
        C = self.C
        L = Lv(self.F)
        s = St()
        P = bind(L, f, s)
        Q0 = gen(('arr', f['params'][0]['n'], False))
        try:
            outs = L.exec(f['body'], s)
        except Changed as e:
            C.bad('conserve', 'input', self.where(f), '%s: %s' % (f['sn'], e)); return
        except (Lost, Fork, Dead) as e:
            C.undecided('conserve', '%s: %s' % (f['sn'], e)); return
        n = 0
        for k, v, t in outs:
            if k == 'throw':
                continue
            hq, ht, hQ = (t.cells[c] for c in P[:3][1:] + P[:1])
            q, tau, Q = L.val(t, hq), L.val(t, ht), L.val(t, hQ)
            n += 1
            if Q != Q0:
                C.bad('conserve', 'input', self.where(f), 'moveinto changes the points it is given: %s' % show(Q)); return
            if ladd(q, tau) != Q0 and unknown(ladd(q, tau)):
                C.undecided('conserve', '%s: %s' % (f['sn'], show(ladd(q, tau)))); continue
            if ladd(q, tau) != Q0:
                C.bad('conserve', 'sum', self.where(f), 'moved point plus shift is %s' % show(ladd(q, tau))); return
            if hq[1] == hQ[1]:
                C.bad('conserve', 'alias', self.where(f), 'the moved points share the storage of the points given'); return
            C.instance('conserve', 'path %d of moveinto: q + tau = Q' % n)

    def ir(self, f, wedge):
        C = self.C
        rule = 'wedge' if wedge else 'rotate'
        L = Lv(self.F)
        s = St()
        P = bind(L, f, s)
        seen = []
        self.stop = False

        def model(n, st):
            v = [L.rv(a, st) for a in n['args'][:3]]
            cq, ct = L.cellof(n['args'][1], st), L.cellof(n['args'][2], st)
            Q, nr = L.val(st, v[0]), L.rows_of(st, v[0])
            st.cells[cq] = L.newreg(st, gen(('arr', ('moved', fresh()), False)), False, nr)
            st.cells[ct] = L.newreg(st, ladd(Q, L.val(st, st.cells[cq]), -1), False, nr)
            INTEGRAL.add(st.reg[st.cells[ct][1]][0])
            st.reg[st.cells[ct][1]] = (st.reg[st.cells[ct][1]][0], True, nr)
            seen.append('moveinto')
            return ('n', Fraction(1))
        L.models['moveinto'] = model
        cells = {'q': P[1], 'R': P[2] if wedge else P[3], 'iR': None if wedge else P[4], 'tau': None if wedge else P[2]}
        verdict, lost = [], []

        def row(L_, n, i, hi, h, back):
            if not any((cells['R'], i) in b.elems for b in back):
                return
            ok = hi == L.rows_of(h, h.cells[P[0]])
            Q = lrow(L.val(h, h.cells[P[0]]), i)
            paths = 0
            for b in back:
                q = L.val(b, ('A', b.cells[cells['q']][1], i))
                tau = L.val(b, ('A', b.cells[cells['tau']][1], i)) if not wedge else ()
                R = b.elems.get((cells['R'], i))
                if R is None:
                    # a point no operation brings inside is counted, and refused afterwards
                    if any(b.cells[c] != h.cells[c] for c in h.cells if h.cells[c][0] != 'V' and b.cells.get(c) is not None and bare(L.types.get(c, '')) in INTS and bare(L.types.get(c, '')) != 'bool'):
                        continue
                    verdict.append(('missing', 'a point is left without an operation')); continue
                paths += 1
                ident = R[0] == 'call' and R[1] == 'find_identity_index'
                ps = R[2][0] if R[0] == 'call' and R[1] in ('get_inverse_index', 'find_identity_index') else None
                if ident:
                    back_ = q
                else:
                    pg = ps
                    if pg is None:
                        g = [x for (gg, m), v in q for x in walkterm(gg) if x[0] == 'call' and x[1] == 'get']
                        pg = g[0][2][0] if g else None
                    back_ = apply(('M', ('call', 'transpose', (('call', 'get', (pg, R), 'f'),), 'f')), q) if pg is not None else None
                if unknown(q) or unknown(tau) or not R[0] in ('call', 'sym', 'n', 'par'):
                    lost.append(show(q)); continue
                if back_ is None or ladd(back_, tau) != Q:
                    verdict.append(('sum', 'with the operation %s the moved point %s and the shift give %s' % (t_(R), show(q), show(ladd(back_ or (), tau))))); continue
                if not wedge:
                    I = b.elems.get((cells['iR'], i))
                    inv = lambda a, z: a[0] == 'call' and a[1] == 'get_inverse_index' and a[2][1] == z
                    if I is None or not (ident and I == R or not ident and (inv(R, I) or inv(I, R))):
                        verdict.append(('inverse', 'the inverse of the operation %s is reported as %s' % (t_(R), t_(I) if I else 'nothing'))); continue
                C.instance(rule, 'path %d of %s' % (paths, f['sn'].split('::')[-1]))
            if not ok:
                verdict.append(('range', 'not every point is treated'))
            verdict.append(None)
        L.onrows.append(row)
        try:
            outs = L.exec(f['body'], s)
        except Changed as e:
            C.bad(rule, 'input', self.where(f), '%s: %s' % (f['sn'], e)); return
        except (Lost, Fork, Dead) as e:
            C.undecided(rule, '%s: %s' % (f['sn'], e)); return
        for x in lost:
            C.undecided(rule, '%s: %s' % (f['sn'], x))
        for v in verdict:
            if v:
                C.bad(rule, v[0], self.where(f), '%s: %s' % (f['sn'].split('::')[-1], v[1])); return
        if not verdict:
            C.undecided(rule, '%s: the loop over the points was not followed' % f['sn'])
        if not wedge and not seen:
            C.bad(rule, 'moveinto', self.where(f), 'the points are not moved into the first zone')

    def cell(self, f):
        """The matrix a change of cell applies, per kind of lattice."""
        C = self.C
        nm = f['sn'].split('::')[-1].split('<')[0]
        L = Lv(self.F)
        L.open = nm
        s = St()
        P = bind(L, f, s)
        a = gen(('arr', f['params'][1]['n'], intarr(f['params'][1]['t'])))
        try:
            outs = L.exec(f['body'], s)
        except Changed as e:
            C.bad('cell', nm + '|input', self.where(f), '%s: %s' % (f['sn'], e)); return
        except (Lost, Fork, Dead) as e:
            C.undecided('cell', '%s: %s' % (f['sn'], e)); return
        tag = '%s<%s>' % (nm, 'int' if intarr(f['params'][1]['t']) else 'double')
        kinds = {}
        for k, v, t in outs:
            if k != 'return' or v is None or v[0] != 'A':
                continue
            l = L.val(t, v)
            if l == a:
                continue
            kind = [c[3][1].split('::')[-1] for c, x in t.pc.items() if x and c[0] == 'bin' and c[1] == '==' and isinstance(c[3], tuple) and c[3][0] == 'enum'] \
                + [c[2][1].split('::')[-1] for c, x in t.pc.items() if x and c[0] == 'bin' and c[1] == '==' and isinstance(c[2], tuple) and c[2][0] == 'enum']
            kind = sorted(set(kind))
            if len(kind) != 1:
                continue
            kinds.setdefault(kind[0], set()).add(l)
        for kind, ls in sorted(kinds.items()):
            to = '_to_' in nm
            get = {('angstrom', True): ('get_invP', 1), ('inverse_angstrom', True): ('get_6Pt', 6), ('angstrom', False): ('get_6P', 6), ('inverse_angstrom', False): ('get_invPt', 1)}.get((kind, to))
            if get is None:
                C.bad('cell', tag + '|' + kind, self.where(f), '%s accepts vectors of kind %s' % (tag, kind)); continue
            for l in ls:
                l = flat(l)
                good = False
                if len(l) == 1:
                    (g, m), c = l[0]
                    good = g[0] == 'lin' and g[1][0] == 'M' and g[1][1][0] == 'call' and g[1][1][1] == get[0] and g[2] == a[0][0][0] and not m and c == Fraction(1, get[1])
                if not good:
                    C.bad('cell', tag + '|' + kind, self.where(f), '%s turns vectors of kind %s into %s' % (tag, kind, show(l))); continue
                C.instance('cell', tag + ' ' + kind)
        if set(kinds) != {'angstrom', 'inverse_angstrom'}:
            C.undecided('cell', '%s: kinds %s followed' % (tag, sorted(kinds)))


OPS = ('transpose', 'get', 'get_inverse_index', 'find_identity_index', 'getall', 'pointgroup_symmetry', 'get_pointgroup_symmetry', 'add_space_inversion')


def unknown(l):
    """Whether a value comes from a function which was not followed."""
    for (g, m), v in l:
        for x in walkterm(g):
            if x[0] == 'effect' or x[0] == 'M' and any(y[0] == 'call' and y[1] not in OPS for y in walkterm(x[1])):
                return True
    return False


def named(n):
    """The variable an argument names, behind conversions and calls with one argument."""
    n = strip(n)
    while n.get('k') in ('ctor', 'call', 'cast', 'init', 'x:MaterializeTemporaryExpr'):
        a = n.get('args') or n.get('c') or ([n['e']] if n.get('e') else [])
        a = [x for x in a if not x.get('dflt')]
        if len(a) != 1:
            return None
        n = strip(a[0])
    return n.get('d') if n.get('k') == 'ref' else None


def results(C, F, f):
    """Python receives the moved point first and its shift second."""
    body = f['body']
    mv = [n for n in core.walk(body) if n.get('k') == 'call' and n.get('fn') in ('moveinto', 'ir_moveinto') and len(n.get('args', [])) >= 3]
    tp = [n for n in core.walk(body) if n.get('k') == 'call' and n.get('fn') == 'make_tuple']
    if len(mv) != 1 or len(tp) != 1 or len(tp[0]['args']) < 2:
        return
    want = [named(mv[0]['args'][1]), named(mv[0]['args'][2])]
    got = [named(a) for a in tp[0]['args'][:2]]
    if None in want or None in got:
        C.undecided('results', '%s:%s' % (f.get('file', ''), f['l'])); return
    if want != got:
        C.bad('results', mv[0]['fn'], '%s:%s' % (f.get('file', ''), f['l']), 'the moved point and its shift are not the first two values returned to Python')
    else:
        C.instance('results', mv[0]['fn'])


def flat(l):
    for _ in range(4):
        l = lmap(l, lambda g: g[1] if g[0] == 'trunc' else gen(g))
    return l


def walkterm(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walkterm(x)


def run(tier):
    C = core.Check('P26', tier, 'Path-wise interpretation of the functions which move points, over linear combinations of the values of the arrays involved, '
                   'with storage shared by copies and views; loops by an inductive step which keeps sums of two arrays. ' + '; '.join('%s: %s' % x for x in RULE.items()))
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    R = Run(C, F)
    for f in F.funcs.values():
        if f.get('dep') or not f.get('body'):
            continue
        if '/wrap/' in f.get('file', '') or f.get('file', '').startswith('wrap/'):
            for n in core.walk(f['body']):
                if n.get('k') == 'lambda':
                    results(C, F, dict(f, body=n['body'], l=n.get('l', f['l'])))
        sn = f['sn'].split('<')[0]
        if re.search(r'::((ir_)?moveinto(_wedge)?|(parallel_)?transform_(to|from)_primitive)$', sn):
            C.instance('function', f['f'])
        if sn.endswith('BrillouinZone::moveinto'):
            R.moveinto(f)
        elif sn.endswith('BrillouinZone::ir_moveinto'):
            R.ir(f, False)
        elif sn.endswith('BrillouinZone::ir_moveinto_wedge'):
            R.ir(f, True)
        elif re.search(r'::(parallel_)?transform_(to|from)_primitive$', sn):
            R.cell(f)
    C.floor('function', 8)
    C.assumptions += ['arithmetic on coordinates is exact', 'operation tables and their inverses are those judged by P12 and P13',
                      'a change of cell and its inverse cancel (rule cell, and P12 for the matrices)']
    return C.finish()
