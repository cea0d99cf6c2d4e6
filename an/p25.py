"""P25 vertex bookkeeping.

The bookkeeping classes (VertexMapSet, VertexIndexMap) and the knitting functions are interpreted over *schemas*: a map or vector is
not a list of values but a list of families `for every binder such that guards: key -> value`.  Loops over a container therefore run
their body once, for a generic element, for every path through the body; what a path inserts, replaces or throws is recorded with the
path's guards.  The obligations compare those families with the bookkeeping rules for every content of the containers."""
import copy
from core import Check, loc, walk, kids, rel, strip_t, all_units
import core

FILES = ('vertex_map_set.h', 'vertex_index_map.h', 'vertex_map_knit.h')


class Unk(Exception):
    """Something this interpreter does not model; the obligation is reported as undecided."""


class Ret(Exception):
    def __init__(self, v): self.v = v


class Thr(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


# ---- linear integer values -------------------------------------------------------------------------------------------
def lin(c=0, items=()):
    d = {}
    for a, k in items:
        d[a] = d.get(a, 0) + k
    return ('lin', c, tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)))


def aslin(v):
    if v[0] == 'lin':
        return v
    if v[0] == 'bool':
        return lin(int(v[1]))
    return lin(0, [(v, 1)])


def unlin(v):
    if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        return v[2][0][0]
    return v


def ladd(a, b, s=1):
    a, b = aslin(a), aslin(b)
    return unlin(lin(a[1] + s * b[1], list(a[2]) + [(x, s * k) for x, k in b[2]]))


def lmul(a, b):
    a, b = aslin(a), aslin(b)
    if not a[2]:
        return unlin(lin(a[1] * b[1], [(x, a[1] * k) for x, k in b[2]]))
    if not b[2]:
        return lmul(b, a)
    return ('mul',) + tuple(sorted((unlin(a), unlin(b)), key=repr))


def const(v):
    return v[1] if v[0] == 'lin' and not v[2] else None


def pos(e):
    """atom for e > 0, with a canonical sign -> (atom, polarity) or bool"""
    e = aslin(e)
    if not e[2]:
        return e[1] > 0
    if e[2][0][1] < 0:                      # not( -e+1 > 0 )
        return (('pos', lin(-e[1] + 1, [(x, -k) for x, k in e[2]])), False)
    return (('pos', e), True)


def nonneg(e, path=()):
    """e >= 0 follows from the (unsigned) quantities in it, or from one guard of the path"""
    e = aslin(e)
    if e[1] >= 0 and all(k >= 0 for _, k in e[2]):
        return True
    for (a, p) in path:
        if a[0] != 'pos':
            continue
        g = a[1] if p else lin(-a[1][1] + 1, [(x, -k) for x, k in a[1][2]])     # g > 0, i.e. g-1 >= 0
        d = aslin(ladd(e, ladd(g, lin(1), -1), -1))
        if d[1] >= 0 and all(k >= 0 for _, k in d[2]):
            return True
    return False


def fst(v):
    return v[1] if v[0] == 'pair' else ('fst', v)


def snd(v):
    return v[2] if v[0] == 'pair' else ('snd', v)


def subst(v, m):
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        r = tuple(subst(x, m) for x in v)
        if r and r[0] == 'lin' and r != v:
            out = lin(r[1])
            for a, k in r[2]:
                out = ladd(out, lmul(lin(k), a))
            return out
        return r
    return v


def has_unk(v):
    return isinstance(v, tuple) and (v[:1] == ('unk',) or any(has_unk(x) for x in v))


class Interp:
    opaque = ()           # method names (csn, fn) kept as events

    def __init__(self, F, opaque=()):
        self.F = F
        self.opaque = set(opaque)
        self.nid = 0
        self.depth = 0
        self.steps = 0

    # ---- state
    def fresh(self, kind):
        self.nid += 1
        return ('b', kind, self.nid)

    def new(self, kind, **kw):
        self.nid += 1
        i = ('obj', self.nid)
        self.H[i] = dict(kind=kind, log=[], sort=None, **kw)
        return i

    def branch(self, cond):
        """cond: bool | (atom, polarity)"""
        if isinstance(cond, bool):
            return cond
        a, p = cond
        for (x, q) in self.path:
            if x == a:
                return q == p
        if a[0] == 'eqv':                  # equal to two different constants at once is impossible
            for (x, q) in self.path:
                if x[0] == 'eqv' and q and x[1] == a[1] and x[2] != a[2] and x[2][0] == 'enum' and a[2][0] == 'enum':
                    return (not p)
        if self.dpos < len(self.dec):
            d = self.dec[self.dpos]
        else:
            d = True
            self.dec.append(True)
        self.dpos += 1
        self.path.append((a, d))
        return d == p

    def paths(self, fn):
        """run fn() for every sequence of branch decisions; yields (outcome, value)"""
        out = []
        saved = (self.dec, self.dpos) if hasattr(self, 'dec') else None
        base = (copy.deepcopy(self.H), dict(self.env), list(self.path), list(self.exits), list(self.events), self.this) if hasattr(self, 'H') else None
        stack = [[]]
        n = 0
        while stack:
            self.dec = stack.pop()
            given = len(self.dec)
            self.dpos = 0
            if base:
                self.H, self.env, self.path, self.exits, self.events, self.this = copy.deepcopy(base[0]), dict(base[1]), list(base[2]), list(base[3]), list(base[4]), base[5]
            else:
                self.H, self.env, self.path, self.exits, self.events, self.this = {}, {}, [], [], [], None
            n += 1
            if n > 400:
                raise Unk('too many paths')
            try:
                fn(); r = ('end', None)
            except Ret as e:
                r = ('ret', e.v)
            except Thr:
                r = ('throw', None)
            except Brk:
                r = ('brk', None)
            except Cnt:
                r = ('end', None)
            except Dead:
                r = None
            if r: out.append(dict(out=r[0], val=r[1], path=list(self.path), H=self.H, env=self.env, exits=self.exits, events=self.events))
            for i in range(len(self.dec) - 1, given - 1, -1):
                stack.append(self.dec[:i] + [not self.dec[i]])
        if base:
            self.H, self.env, self.path, self.exits, self.events, self.this = base
        if saved:
            self.dec, self.dpos = saved
        return out

    # ---- containers
    def entries(self, o):
        """families of a container: [(guards, element)] ; element of a map is a pair"""
        if o[0] == 'obj':
            ob = self.H[o]
            out = []
            if ob.get('base') is not None:
                out += self.entries(ob['base'])
            for e in ob['log']:
                g = [x for x in e['path'] if x not in self.path]
                if ob['kind'] == 'map' and e['op'] == 'put':
                    out.append((g, ('pair', e['key'], e['val'])))
                elif ob['kind'] == 'vec' and e['op'] == 'push':
                    out.append((g, e['val']))
                elif e['op'] in ('reserve',):
                    pass
                else:
                    raise Unk('iteration over a container after ' + e['op'])
            return out
        k = self.fresh('k')
        if o[0] == 'get':                  # an opaque vector
            return [([(('at?', o, k), True)], ('at', o, k))]
        return [([(('in', o, k), True)], ('pair', k, ('get', o, k)))]

    def lookup(self, m, key):
        """(condition, value) of key in m"""
        if m[0] != 'obj':
            return (('in', m, key), True), ('get', m, key)
        ob = self.H[m]
        for e in reversed(ob['log']):
            if e['op'] == 'put' and e['key'] == key and all(x in self.path for x in e['path']):
                return True, e['val']
        if ob.get('base') is not None:
            if any(e['op'] not in ('put', 'reserve') or e['key'][0] == 'b' for e in ob['log']):
                raise Unk('lookup after a general change')
            return self.lookup(ob['base'], key)
        if len(ob['log']) == 1 and ob['log'][0]['op'] == 'put' and ob['log'][0]['key'][0] == 'b':
            e = ob['log'][0]
            m2 = {e['key']: key}
            g = [(subst(a, m2), p) for a, p in e['path'] if (a, p) not in self.path]
            if len(g) == 1:
                return g[0], subst(e['val'], m2)
        if not ob['log']:
            return False, ('unk', 'no value')
        raise Unk('lookup in a mixed map')

    def size(self, o):
        if o[0] == 'obj':
            ob = self.H[o]
            n = lin(0)
            if ob.get('base') is not None:
                n = self.size(ob['base'])
            for e in ob['log']:
                if e['op'] in ('put', 'push') and all(x in self.path for x in e['path']) and e['key' if e['op'] == 'put' else 'val'][0] != 'b':
                    if e['op'] == 'put' and e.get('was') is True:
                        continue
                    n = ladd(n, lin(1))
                elif e['op'] == 'reserve':
                    pass
                elif e['op'] == 'resize':
                    n = e['val']
                else:
                    ent = self.entries(o)
                    return ('size',) + tuple((tuple(g), x) for g, x in ent)
            return n
        if o[0] == 'view' and len(o) == 4:
            return ladd(o[3], o[2], -1)
        return ('size', o)

    def log(self, o, **e):
        e['path'] = list(self.path)
        if o[0] != 'obj':
            self.events.append(dict(e, on=o))
        else:
            self.H[o]['log'].append(e)

    def setmap(self, m, key, val):
        c, _ = self.lookup(m, key) if not (key[0] == 'b') else (None, None)
        was = c if isinstance(c, bool) else next((q == c[1] for x, q in self.path if c and x == c[0]), None)
        if c is not None and was is None and not isinstance(c, bool) and m[0] == 'obj' and self.H[m].get('base') is not None:
            was = self.branch(c)
        self.log(m, op='put', key=key, val=val, was=was)

    # ---- lvalues
    def lv(self, n):
        k = n['k']
        if k in ('cast',):
            return self.lv(n['e'])
        if k == 'ref' and n.get('dk') in ('local', 'param', 'binding'):
            v = self.env.get(n['d'])
            if v is not None and v[0] == 'ref':
                return v[1]
            return ('var', n['d'])
        if k == 'mem':
            o = self.obj(n['e'])
            if o[0] == 'obj':
                return ('fld', o, n['n'])
            b = self.lv(n['e']) if n['e']['k'] in ('ref', 'mem', 'call', 'idx') else None
            return ('mem', b or ('val', o), n['n'])
        if k == 'call' and n['fn'] == 'operator[]':
            o = self.val(n['args'][0])
            i = self.val(n['args'][1])
            return ('slot', o, i)
        if k == 'call' and n['fn'] == 'at' and n.get('obj'):
            return ('slot', self.val(n['obj']), self.val(n['args'][0]))
        if k == 'un' and n['op'] == '*':
            return self.lv(n['e'])
        if k == 'call' and n['fn'] == 'operator*':
            v = self.val(n['args'][0])
            if v[0] == 'ref':
                return v[1]
        return ('val', self.val(n))

    def load(self, l):
        if l[0] == 'var':
            if l[1] not in self.env:
                raise Unk('unknown variable')
            v = self.env[l[1]]
            return self.load(v[1]) if v[0] == 'ref' else v
        if l[0] == 'fld':
            f = self.H[l[1]]['f']
            if l[2] not in f:
                if self.H[l[1]]['kind'] == 'vms':
                    return l
                raise Unk('field ' + l[2])
            return f[l[2]]
        if l[0] == 'slot':
            return self.index(l[1], l[2])
        if l[0] == 'elem':
            return l[1]
        if l[0] == 'val':
            return l[1]
        if l[0] == 'mem':
            return self.member(self.load(l[1]), l[2])
        raise Unk('load ' + l[0])

    def store(self, l, v):
        if l[0] == 'var':
            o = self.env.get(l[1])
            if o is not None and o[0] == 'ref':
                return self.store(o[1], v)
            self.env[l[1]] = v
        elif l[0] == 'fld':
            self.H[l[1]]['f'][l[2]] = v
        elif l[0] == 'slot':
            o = l[1]
            if self.ismap(o):
                self.setmap(o, l[2], v)
            else:
                self.log(o, op='assign', key=l[2], val=v)
        elif l[0] == 'elem':
            self.events.append(dict(op='write', key=l[1], val=v, path=list(self.path)))
        elif l[0] == 'mem' and l[2] in ('first', 'second'):
            o = self.load(l[1])
            self.store(l[1], ('pair', v, snd(o)) if l[2] == 'first' else ('pair', fst(o), v))
        else:
            raise Unk('store ' + l[0])

    def ismap(self, o):
        return o[0] == 'obj' and self.H[o]['kind'] == 'map' or o[0] == 'fld' and o[2] in ('preserve_', 'data_')

    def index(self, o, i):
        if self.ismap(o):
            c, v = self.lookup(o, i)
            if not self.branch(c):
                v = ('dflt', o)
                self.setmap(o, i, v)
            return v
        if o[0] == 'obj':
            return ('at', o, i)
        return ('at', o, i)

    def member(self, v, n):
        if v[0] == 'it':
            return self.member(self.deref(v), n)
        if n == 'first':
            return fst(v)
        if n == 'second':
            return snd(v)
        if v[0] == 'obj':
            return self.load(('fld', v, n))
        return ('fld', v, n)

    def deref(self, v):
        if v[0] == 'it':
            return ('pair', v[2], self.lookup(v[1], v[2])[1])
        if v[0] == 'cur':
            return v[1]
        return v

    def obj(self, n):
        return self.val(n)

    # ---- conditions
    def cond(self, n):
        k = n['k']
        if k == 'un' and n['op'] == '!':
            return not self.cond(n['e'])
        if k == 'bin' and n['op'] == '&&':
            return self.cond(n['a']) and self.cond(n['b'])
        if k == 'bin' and n['op'] == '||':
            return self.cond(n['a']) or self.cond(n['b'])
        if k in ('cast', 'paren') and 'e' in n and 'v' not in n:
            return self.cond(n['e'])
        return self.truth(self.val(n))

    def truth(self, v):
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'cond':
            return self.branch((v[1], v[2]))
        c = const(v)
        if c is not None:
            return c != 0
        p = pos(v)                       # unsigned
        return self.branch(p)

    def cmpv(self, op, a, b):
        """-> ('bool',..) or ('cond', atom, polarity)"""
        def w(p):
            return ('bool', p) if isinstance(p, bool) else ('cond', p[0], p[1])
        if a[0] == 'it' or b[0] == 'it':
            it, o = (a, b) if a[0] == 'it' else (b, a)
            if o[0] == 'end':
                c, _ = self.lookup(it[1], it[2])
                if isinstance(c, bool):
                    return ('bool', c == (op == '!='))
                return ('cond', c[0], c[1] == (op == '!='))
            raise Unk('iterator comparison')
        if op in ('==', '!='):
            if a == b:
                return ('bool', op == '==')
            if a[0] == 'enum' and b[0] == 'enum':
                return ('bool', (a == b) == (op == '=='))
            if const(a) is not None and const(b) is not None:
                return ('bool', (const(a) == const(b)) == (op == '=='))
            for x, y in ((a, b), (b, a)):
                if const(x) == 0:
                    p = pos(y)
                    return w(p if isinstance(p, bool) and op == '!=' else (not p if isinstance(p, bool) else (p[0], p[1] == (op == '!='))))
            if a[0] == 'enum' or (b[0] != 'enum' and repr(a) > repr(b)):
                a, b = b, a
            if not (a[0] == 'enum' or b[0] == 'enum'):
                d = aslin(ladd(a, b, -1))
                if d[2] and d[2][0][1] < 0:
                    d = aslin(lmul(lin(-1), d))
                if len(d[2]) == 2 and d[1] == 0 and sorted(k for _, k in d[2]) == [-1, 1]:
                    x = sorted((q for q, _ in d[2]), key=repr)
                    return ('cond', ('eqv', x[0], x[1]), op == '==')
                return ('cond', ('zero', d), op == '==')
            return ('cond', ('eqv', a, b), op == '==')
        e = {'<': lambda: ladd(b, a, -1), '>': lambda: ladd(a, b, -1), '<=': lambda: ladd(ladd(b, a, -1), lin(1)), '>=': lambda: ladd(ladd(a, b, -1), lin(1))}[op]()
        return w(pos(e))

    # ---- expressions
    def val(self, n):
        self.steps += 1
        if self.steps > 400000:
            raise Unk('too long')
        k = n['k']
        f = getattr(self, 'v_' + k, None)
        if f:
            return f(n)
        if k.startswith('x:') and 'n' in n and n.get('c'):       # member of an unresolved type inside a generic lambda
            return self.member(self.val(n['c'][0]), n['n'])
        raise Unk('expression ' + k)

    def v_int(self, n): return lin(int(n['v']))
    def v_bool(self, n): return ('bool', str(n['v']) in ('1', 'true', 'True'))
    def v_float(self, n): return ('num', n['v'])
    def v_str(self, n): return ('str',)

    def v_cast(self, n):
        return self.val(n['e'])

    def v_paren(self, n): return self.val(n['e'])

    def v_this(self, n):
        if self.this is None:
            raise Unk('this')
        return self.this

    def v_ref(self, n):
        if n.get('dk') == 'enum':
            return ('enum', n['q'])
        if n.get('dk') in ('local', 'param', 'binding'):
            if n['d'] not in self.env:
                if n.get('v') is not None:
                    return lin(int(n['v']))
                raise Unk('variable ' + n.get('n', '?'))
            return self.load(('var', n['d']))
        if n.get('dk') == 'func':
            return ('func', n['q'])
        return ('glob', n.get('q') or n.get('n'))

    def v_mem(self, n):
        return self.member(self.val(n['e']), n['n'])

    def v_idx(self, n):
        return self.index(self.val(n['a' if 'a' in n else 'e']), self.val(n['i']))

    def v_cond(self, n):
        return self.val(n['a']) if self.cond(n['c']) else self.val(n['b'])

    def v_init(self, n):
        c = n['c']
        if len(c) == 1:
            return self.val(c[0])
        if not c:
            return lin(0)
        t = strip_t(n.get('t', ''))
        if 'VertexMapSet' in t:
            return self.construct(n, t, [self.val(x) for x in c])
        if len(c) == 2 and 'pair' in t:
            return ('pair', self.val(c[0]), self.val(c[1]))
        raise Unk('initialiser list')

    def v_un(self, n):
        op = n['op']
        if op in ('++', '--'):
            l = self.lv(n['e'])
            old = self.load(l)
            new = ladd(old, lin(1 if op == '++' else -1))
            self.store(l, new)
            return old if n.get('post') else new
        if op == '!':
            return ('bool', not self.cond(n))
        if op == '*':
            return self.deref(self.val(n['e']))
        if op == '-':
            return lmul(lin(-1), self.val(n['e']))
        if op == '+':
            return self.val(n['e'])
        raise Unk('unary ' + op)

    def v_bin(self, n):
        op = n['op']
        if op in ('&&', '||'):
            return ('bool', self.cond(n))
        if op == ',':
            self.val(n['a']); return self.val(n['b'])
        if op == '=':
            v = self.val(n['b'])
            self.store(self.lv(n['a']), v)
            return v
        if op in ('+=', '-='):
            l = self.lv(n['a'])
            v = ladd(self.load(l), self.val(n['b']), 1 if op == '+=' else -1)
            self.store(l, v)
            return v
        a, b = self.val(n['a']), self.val(n['b'])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.cmpv(op, a, b)
        if op == '+':
            return ladd(a, b)
        if op == '-':
            return ladd(a, b, -1)
        if op == '*':
            return lmul(a, b)
        if op == '>>' and const(b) is not None:
            return ('div', a, lin(1 << const(b)))
        if op == '<<' and const(b) is not None:
            return lmul(a, lin(1 << const(b)))
        if op == '/':
            return ('div', a, b)
        if op == '&' and const(b) == 1:
            return ('mod', a, lin(2))
        if op == '%':
            return ('mod', a, b)
        return ('op', op, a, b)

    def v_lambda(self, n):
        return ('lambda', id(n), self.keep(n))

    def keep(self, n):
        self.__dict__.setdefault('_kept', {})[id(n)] = n
        return id(n)

    def v_ctor(self, n):
        q = strip_t(n['q'])
        cls = q.rsplit('::', 1)[0] if '::' in q else q
        args = [self.val(a) for a in n['args']]
        return self.construct(n, n['q'], args)

    def construct(self, n, q, args):
        h = strip_t(q)
        if 'VertexMapSet' in h:
            if len(args) == 1:
                return args[0]
            o = self.new('vms', f={})
            self.H[o]['ctor'] = tuple(args)
            self.events.append(dict(op='vms', on=o, args=tuple(args), path=list(self.path)))
            return o
        if 'VertexIndexMap' in h:
            if len(args) == 1:
                return ('vim', args[0]) if args[0][0] in ('obj', 'fld') else args[0]
            return ('vim', self.new('map', base=None))
        if h.startswith('std::map'):
            if not args:
                return self.new('map', base=None)
            if len(args) == 1:
                return self.copyof(args[0], 'map')
        if h.startswith('std::vector'):
            if not args:
                return self.new('vec', base=None)
            if len(args) == 1 and args[0][0] in ('lin', 'size', 'div'):
                v = self.new('vec', base=None)
                self.log(v, op='resize', val=args[0])
                return v
            if len(args) == 1:
                return self.copyof(args[0], 'vec')
            if len(args) == 2 and args[0][0] == 'cur' and args[1][0] == 'end':
                o = self.new('vec', base=None)
                self.H[o]['log'] = [dict(op='push', val=e, order=self.orderof(args[0][2]), path=self.path + g) for g, e in self.entries(args[0][2])]
                return o
        if h.startswith('std::pair') and len(args) == 2:
            return ('pair', args[0], args[1])
        if not args and 'Array' in h:
            return ('emptyarr',)
        if len(args) == 1:
            return args[0]
        raise Unk('construction of ' + h[:60])

    def copyof(self, v, kind):
        if v[0] == 'obj':
            o = self.new(kind, base=self.H[v].get('base'))
            self.H[o]['log'] = list(self.H[v]['log']); self.H[o]['sort'] = self.H[v]['sort']
            return o
        return self.new(kind, base=v)

    def call_lambda(self, v, args):
        n = self._kept[v[1]]
        body = n['body']
        for p, a in zip(n['params'], args):
            self.env[p['d']] = a
        for c in n.get('caps') or []:
            pass
        try:
            self.stmt(body)
        except Ret as r:
            return r.v
        return ('void',)

    def v_call(self, n):
        fn = n.get('fn')
        q = n.get('q') or ''
        h = strip_t(q)
        opr = n.get('opr')
        if fn in ('debug_update', 'info_update', 'profile_update', 'verbose_update') or 'Logger' in h or 'DebugPrinter' in h or 'DebugPrinter' in str(n.get('f', '')) and False:
            return ('void',)
        if opr and not n.get('obj') and len(n['args']) in (1, 2) and opr not in ('[]', '()'):
            if opr == '=':
                v = self.val(n['args'][1])
                if self.ismap(v) and not (n['args'][1].get('k') == 'call' and n['args'][1].get('fn') == 'move'):
                    v = self.copyof(v, 'map')
                self.store(self.lv(n['args'][0]), v)
                return v
            if opr in ('*', '->') and len(n['args']) == 1:
                return self.deref(self.val(n['args'][0]))
            if opr in ('++', '--'):
                raise Unk('iterator step')
            a = self.val(n['args'][0])
            b = self.val(n['args'][1]) if len(n['args']) > 1 else None
            if b is not None and opr in ('==', '!=', '<', '>', '<=', '>='):
                if opr in ('==', '!=') and 'it' not in (a[0], b[0]) and ('pair' in strip_t(n['args'][0].get('t', '')) or a[0] == 'pair' or b[0] == 'pair' or self.ispair(n['args'][0]) or self.ispair(n['args'][1])):
                    r = self.truth(self.cmpv('==', fst(a), fst(b))) and self.truth(self.cmpv('==', snd(a), snd(b)))
                    return ('bool', r == (opr == '=='))
                return self.cmpv(opr, a, b)
            if b is not None and opr in ('+', '-', '*', '<<', '>>'):
                if opr in ('<<',):
                    return a
                return ('aop', opr, a, b)
        if opr == '[]':
            a = n['args']
            return self.index(self.val(a[0]), self.val(a[1]))
        if opr == '()':
            f = self.val(n['args'][0])
            if f[0] == 'lambda':
                return self.call_lambda(f, [self.val(x) for x in n['args'][1:]])
        if h.startswith('std::') or h.startswith('__gnu') or h.startswith('std'):
            return self.std(n, fn)
        g = self.F.funcs.get(n.get('f')) if n.get('f') else None
        csn = g.get('csn') if g else None
        if n.get('obj') is not None:
            o = self.val(n['obj'])
            args = [self.val(a) for a in n['args']]
            if o[0] == 'vim':
                o = o if True else o
            if 'VertexMapSet' in h or 'VertexIndexMap' in h:
                if (fn) in self.opaque:
                    return self.event(fn, o, args)
                return self.inline(n, g, o, args)
            return self.array(n, fn, o, args)
        if fn in self.opaque or h.startswith('brille::cat') or fn == 'cat':
            args = [self.val(a) for a in n['args']]
            if fn in self.opaque:
                return self.event(fn, ('free', h), args)
            return ('cat',) + tuple(args)
        if g is not None and g.get('body'):
            return self.inline(n, g, self.this, [self.bindarg(a, p) for a, p in zip(n['args'], g['params'])])
        raise Unk('call of ' + (h or fn or '?'))

    def bindarg(self, a, p):
        if core.is_nonconst_ref(p.get('t', '')):
            l = self.lv(a)
            if l[0] in ('var', 'fld', 'elem'):
                v = self.load(l)
                return v if v[0] == 'obj' else ('ref', l)
        return self.val(a)

    def ispair(self, n):
        return n.get('k') == 'ref' and 'pair' in str(n.get('t', ''))

    def event(self, fn, o, args):
        e = dict(op=fn, on=o, args=tuple(args), path=list(self.path))
        self.events.append(e)
        return ('ev', fn, o, tuple(args))

    def inline(self, n, g, this, args):
        if g is None or not g.get('body'):
            raise Unk('no body for ' + str(n.get('q')))
        if self.depth > 8:
            raise Unk('inlining too deep')
        saved = (self.env, self.this)
        self.depth += 1
        self.env = {}
        self.this = this if n.get('obj') is not None else self.this
        for p, a in zip(g['params'], args):
            self.env[p['d']] = a
        for p in g['params'][len(args):]:
            pass
        out = ('void',)
        pend = len(self.exits)
        try:
            self.stmt(g['body'])
        except Ret as r:
            out = r.v
            if out[0] == 'ref':
                out = self.load(out[1])
        finally:
            self.depth -= 1
            self.env, self.this = saved
        if any(x['kind'] == 'ret' for x in self.exits[pend:]):
            raise Unk('conditional return from a loop of an inlined function')
        return out

    def array(self, n, fn, o, args):
        if fn == 'size' and len(args) <= 1:
            if o[0] == 'obj' and self.H[o]['kind'] == 'arr':
                for e in reversed(self.H[o]['log']):
                    if e['op'] == 'resize':
                        return e['val']
                return ('size', self.H[o]['base'])
            return self.size(o)
        if o[0] == 'obj' and self.H[o]['kind'] == 'arr':
            if fn == 'resize':
                self.log(o, op='resize', val=args[0]); return ('void',)
            if fn == 'set':
                self.log(o, op='set', key=args[0], val=args[1]); return ('void',)
            o = self.H[o]['base'] if not self.H[o]['log'] else ('changed', self.H[o]['base'])
        if fn == 'view':
            return ('view', o) + tuple(args)
        if fn in ('count', 'first') and args and const(args[-1]) == 0:
            args = args[:-1]          # the default: all flags
        if fn == 'resize':
            return ('void',)
        if fn in ('row_is', 'extract', 'to_string', 'count', 'first', 'all', 'any', 'is_row_ordered'):
            return ('arr', fn, o) + tuple(args)
        raise Unk('array operation ' + str(fn))

    # ---- library
    def std(self, n, fn):
        A = n['args']
        if n.get('obj') is not None:
            o = self.val(n['obj'])
            if fn == 'emplace' and self.ismap2(o):
                v = [self.val(a) for a in A]
                k, x = (fst(v[0]), snd(v[0])) if len(v) == 1 else v
                self.log(o, op='put', key=k, val=x, was=None, keep=True); return ('void',)
            if fn in ('insert', 'insert_or_assign', 'try_emplace') and self.ismap2(o):
                v = [self.val(a) for a in A]
                if len(v) == 2 and v[0][0] == 'cur':
                    for g, e in self.entries(v[0][2]):
                        self.H[o]['log'].append(dict(op='put', key=fst(e), val=snd(e), was=None, keep=True, path=self.path + g))
                    return ('void',)
                k, x = (fst(v[0]), snd(v[0])) if len(v) == 1 else v
                self.log(o, op='put', key=k, val=x, was=None, keep=fn != 'insert_or_assign'); return ('void',)
            if fn in ('push_back', 'emplace_back'):
                v = [self.val(a) for a in A]
                self.log(o, op='push', val=v[0] if len(v) == 1 else ('pair', v[0], v[1]), order=getattr(self, 'order_now', None)); return ('void',)
            if fn == 'reserve':
                return ('void',)
            if fn == 'clear' and o[0] == 'obj':
                self.H[o]['log'] = []; self.H[o]['base'] = None
                return ('void',)
            if fn == 'assign' and o[0] == 'obj' and len(A) == 2:
                v = self.val(A[0])
                if v[0] != 'cur':
                    raise Unk('assign')
                self.H[o]['log'] = [dict(op='push', val=e, order=self.orderof(v[2]), path=self.path + g) for g, e in self.entries(v[2])]
                self.H[o]['base'] = None; self.H[o]['sort'] = None
                return ('void',)
            if fn == 'resize':
                self.log(o, op='resize', val=self.val(A[0])); return ('void',)
            if fn == 'find':
                return ('it', o, self.val(A[0]))
            if fn == 'count' and len(A) == 1 and self.ismap2(o):
                c, _ = self.lookup(o, self.val(A[0]))
                return ('bool', c) if isinstance(c, bool) else ('cond',) + c
            if fn == 'contains':
                c, _ = self.lookup(o, self.val(A[0]))
                return ('bool', c) if isinstance(c, bool) else ('cond',) + c
            if fn in ('end', 'cend'):
                return ('end', o)
            if fn in ('begin', 'cbegin'):
                return ('cur', None, o)
            if fn == 'size':
                return self.size(o)
            if fn == 'empty':
                p = pos(self.size(o))
                return ('bool', not p) if isinstance(p, bool) else ('cond', p[0], not p[1])
            if fn == 'at':
                i = self.val(A[0])
                if self.ismap2(o):
                    c, v = self.lookup(o, i)
                    if not self.branch(c):
                        raise Thr()
                    return v
                return ('at', o, i)
            if fn == 'back':
                return ('back', o)
            if fn == 'front':
                return ('at', o, lin(0))
            if fn == 'merge':
                o2 = self.val(A[0])
                self.events.append(dict(op='merge', on=o, args=(o2,), path=list(self.path)))
                self.H.setdefault(o2, {})
                self.merged = o2
                return ('void',)
            raise Unk('std method ' + fn)
        if fn in ('move', 'forward', 'as_const', 'ref', 'cref'):
            return self.val(A[0])
        if fn in ('make_pair', 'make_tuple', 'tuple', 'pair') and len(A) == 2:
            return ('pair', self.val(A[0]), self.val(A[1]))
        if fn == 'get' and len(A) == 1:
            raise Unk('std::get')
        if fn in ('max', 'min'):
            return (fn,) + tuple(self.val(a) for a in A)
        if fn == 'back_inserter':
            return ('inserter', self.val(A[0]))
        if fn == 'inserter':
            return ('inserter', self.val(A[0]))
        if fn in ('sort', 'stable_sort'):
            v = self.val(A[0])
            if v[0] != 'cur':
                raise Unk('sort')
            self.H[v[2]]['sort'] = self.order(A[2])
            return ('void',)
        if fn == 'set_difference':
            a, b = self.val(A[0])[2], self.val(A[2])[2]
            ins = self.val(A[4])
            if len(A) > 5 and self.order(A[5]) != 'first':
                self.events.append(dict(op='misuse', on=a, args=(), path=list(self.path)))
            ea = self.entries(a)
            for g, e in ea:
                c, _ = self.lookup(b, fst(e))
                if isinstance(c, bool):
                    raise Unk('set_difference')
                self.H[ins[1]]['log'].append(dict(op='push' if self.H[ins[1]]['kind'] == 'vec' else 'put', val=e if self.H[ins[1]]['kind'] == 'vec' else snd(e), key=fst(e), path=self.path + g + [(c[0], not c[1])]))
            return ('void',)
        if fn in ('all_of', 'any_of', 'none_of') and len(A) == 3:
            raise Unk(fn)
        raise Unk('std function ' + str(fn))

    def ismap2(self, o):
        return self.ismap(o) or o[0] in ('fld',)

    def order(self, n):
        """'first'/'second' when the comparator is a.X < b.X"""
        f = self.val(n)
        if f[0] != 'lambda':
            raise Unk('comparator')
        l = self._kept[f[1]]
        a, b = ('sa',), ('sb',)
        env, path = dict(self.env), list(self.path)
        r = self.call_lambda(f, [a, b])
        self.env, self.path = env, path
        for m in ('fst', 'snd'):
            if r == self.cmpv('<', (m, a), (m, b)):
                return {'fst': 'first', 'snd': 'second'}[m]
            if r == self.cmpv('>', (m, a), (m, b)):
                return {'fst': '-first', 'snd': '-second'}[m]
        raise Unk('comparator')

    # ---- statements
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        f = getattr(self, 's_' + k, None)
        if f:
            return f(s)
        self.val(s)

    def s_block(self, s):
        for x in s['c']:
            self.stmt(x)

    def s_null(self, s): pass

    def s_return(self, s):
        raise Ret(self.val(s['e']) if s.get('e') else ('void',))

    def s_throw(self, s):
        raise Thr()

    def s_break(self, s): raise Brk()
    def s_continue(self, s): raise Cnt()

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cvar'):
            self.stmt(s['cvar'])
        if self.quiet(s.get('then')) and not s.get('else'):
            return
        if self.cond(s['cond']):
            self.stmt(s['then'])
        elif s.get('else'):
            self.stmt(s['else'])

    def quiet(self, s):
        """a statement that only prints"""
        if s is None or s['k'] == 'null':
            return True
        if s['k'] == 'block':
            return all(self.quiet(x) for x in s['c'])
        if s['k'] == 'call':
            h = strip_t(s.get('q') or '')
            return 'DebugPrinter' in h or h.startswith('brille::print') or 'Logger' in h
        return False

    def s_call(self, s):
        if self.quiet(s):
            return
        self.val(s)

    def s_decl(self, s):
        for v in s['c']:
            if v['k'] != 'var':
                continue
            t = v.get('t', '')
            if v.get('bind'):
                x = self.val(v['init'])
                for i, b in enumerate(v['bind']):
                    self.env[b['d']] = fst(x) if i == 0 else snd(x)
                    if b.get('e') and b['e'].get('d') is not None:
                        self.env[b['e']['d']] = self.env[b['d']]
                continue
            if v.get('init') is None:
                self.env[v['d']] = self.default(t)
                continue
            if t.rstrip().endswith('&') and not t.strip().startswith('const'):
                i = v['init']
                if i['k'] == 'init' and len(i['c']) == 1:
                    i = i['c'][0]
                l = self.lv(i)
                if l[0] in ('var', 'fld', 'slot', 'elem', 'mem'):
                    x = self.load(l)
                    self.env[v['d']] = x if x[0] == 'obj' else ('ref', l)
                    continue
            self.env[v['d']] = self.copyin(self.val(v['init']), t)

    def copyin(self, x, t):
        if x[0] == 'fld' and self.ismap(x) and not t.rstrip().endswith('&'):
            return self.copyof(x, 'map')
        if x[0] == 'obj' and not t.rstrip().endswith('&') and x in self.H and self.H[x]['kind'] in ('map', 'vec') and self.H[x].get('field'):
            return self.copyof(x, self.H[x]['kind'])
        return x

    def default(self, t):
        h = strip_t(t)
        if h.startswith('std::map'):
            return self.new('map', base=None)
        if h.startswith('std::vector'):
            return self.new('vec', base=None)
        return ('unk', 'uninitialised')

    def s_switch(self, s):
        v = self.val(s['cond'])
        arms, default = [], None
        body = s['body']['c'] if s['body']['k'] == 'block' else [s['body']]
        seq = []
        def flat(x):
            if x['k'] == 'case':
                seq.append(('case', x['val'])); flat(x['body'])
            elif x['k'] == 'default':
                seq.append(('default', None)); flat(x['body'])
            else:
                seq.append(('s', x))
        for x in body:
            flat(x)
        start = None
        for i, (k, x) in enumerate(seq):
            if k == 'case' and self.truth(self.cmpv('==', v, self.val(x))):
                start = i; break
        if start is None:
            d = [i for i, (k, _) in enumerate(seq) if k == 'default']
            if not d:
                return
            start = d[0]
        try:
            for k, x in seq[start:]:
                if k == 's':
                    self.stmt(x)
        except Brk:
            pass

    def s_forrange(self, s):
        o = self.val(s['range'])
        self.loop_over(o, s['var'], s['body'])

    def orderof(self, o):
        if o[0] != 'obj':
            return 'first' if self.ismap2(o) or o[0] != 'get' else None
        ob = self.H[o]
        if ob['sort'] or ob['kind'] == 'map':
            return ob['sort'] or 'first'
        if ob.get('base') is not None:
            return self.orderof(ob['base']) if not ob['log'] else None
        os = {e.get('order') for e in ob['log']}
        return os.pop() if len(os) == 1 else None

    def loop_over(self, o, var, body):
        order = self.orderof(o)
        fam = self.entries(o)
        for g, e in fam:
            def bind():
                if var.get('bind'):
                    for i, b in enumerate(var['bind']):
                        self.env[b['d']] = fst(e) if i == 0 else snd(e)
                        if b.get('e') and b['e'].get('d') is not None:
                            self.env[b['e']['d']] = self.env[b['d']]
                    return
                t = var.get('t', '')
                self.env[var['d']] = ('ref', ('elem', e)) if t.rstrip().endswith('&') and not t.strip().startswith('const') else e
            self.loop_once(g, bind, body, ('rank', order, tuple(g), e), ('size', (tuple(g), e)))

    def loop_once(self, g, bind, body, rank, total):
        outer = dict(self.env)
        ctr = {}
        for x in walk(body):
            if x['k'] == 'un' and x['op'] == '++' and x['e']['k'] == 'ref' and x['e'].get('d') in outer and outer[x['e']['d']][0] != 'ref':
                ctr[x['e']['d']] = outer[x['e']['d']]
        fields = {i: dict(ob['f']) for i, ob in self.H.items() if ob.get('f')}
        def run():
            self.order_now = rank[1]
            self.path = self.path + g
            for d, b in ctr.items():
                self.env[d] = ladd(b, rank)
            bind()
            self.stmt(body)
        n0 = {i: len(ob.get('log', ())) for i, ob in self.H.items()}
        e0, x0 = len(self.events), len(self.exits)
        res = self.paths(run)
        full = True
        for r in res:
            if r['out'] in ('ret', 'throw'):
                self.exits.append(dict(kind=r['out'], val=r['val'], path=r['path']))
                continue
            if r['out'] == 'brk':
                raise Unk('break inside a loop')
            for i, ob in r['H'].items():
                if i in n0:
                    self.H[i].setdefault('log', []).extend(ob.get('log', [])[n0[i]:])
                    if ob.get('f') and ob['f'] != fields.get(i):
                        for kf, vf in ob['f'].items():
                            if vf != fields[i].get(kf):
                                self.H[i]['f'][kf] = ('unk', 'changed in a loop')
                else:
                    self.H[i] = ob
            self.events += r['events'][e0:]
            self.exits += r['exits'][x0:]
            for d, v in r['env'].items():
                if d in outer and v != outer[d]:
                    if d in ctr and v == ladd(ladd(ctr[d], rank), lin(1)):
                        continue
                    outer[d] = ('unk', 'changed in a loop')
                    ctr.pop(d, None)
                elif d in ctr:
                    outer[d] = ('unk', 'counted only on some paths')
                    ctr.pop(d, None)
        for d, b in ctr.items():
            outer[d] = ladd(b, total)
        self.env = outer

    def s_for(self, s):
        # counting loop i = a .. b  or iterator loop begin .. end
        ini = s.get('init')
        if not ini or ini['k'] != 'decl':
            raise Unk('for loop')
        v = ini['c'][0]
        c, inc = s['cond'], s['inc']
        step = inc['k'] == 'un' and inc['op'] == '++' and inc['e'].get('d') == v['d'] or inc['k'] == 'call' and inc.get('opr') == '++'
        if not step:
            raise Unk('for loop step')
        a = self.val(v['init'])
        if a[0] == 'cur':
            o = a[2]
            fam = self.entries(o)
            order = self.orderof(o)
            for g, e in fam:
                self.loop_once(g, lambda: self.env.__setitem__(v['d'], ('cur', e, o)), s['body'], ('rank', order, tuple(g), e), ('size', (tuple(g), e)))
            return
        for x in ini['c'][1:]:
            self.env[x['d']] = self.val(x['init'])
        i = self.fresh('i')
        self.env[v['d']] = i
        if c['k'] != 'bin':
            raise Unk('for loop condition')
        x, y = self.val(c['a']), self.val(c['b'])
        r = ('cond', ('pos', aslin(ladd(y, x, -1))), True) if c['op'] == '!=' else self.cmpv(c['op'], x, y)
        if r[0] != 'cond' or r[1][0] != 'pos':
            raise Unk('for loop condition')
        co = dict(r[1][1][2]).get(i)
        if co == -1 and r[2]:
            b = ladd(r[1][1], i)                         # e - i > 0
        elif co == 1 and not r[2]:
            b = ladd(lin(1), ladd(r[1][1], i, -1), -1)   # not (i + e > 0), i.e. i < 1 - e
        else:
            raise Unk('for loop condition')
        self.loop_once([(('range', i, a, b), True)], lambda: self.env.__setitem__(v['d'], i), s['body'], ('rank', None, (), i), ladd(b, a, -1))

    def s_while(self, s):
        outer = dict(self.env)
        ass = {}
        for x in walk(s['body']):
            t = None
            if x['k'] == 'bin' and x['op'] == '=':
                t = x['a']
            if x['k'] == 'call' and x.get('opr') == '=' and x['args']:
                t = x['args'][0]
            if t is not None and t.get('k') == 'ref' and t.get('d') in outer:
                ass[t['d']] = outer[t['d']]
        if not ass:
            raise Unk('while loop')
        for d in ass:
            self.env[d] = ('iterate', d)
        e0 = len(self.events)
        def run():
            if not self.cond(s['cond']):
                raise Brk()
            self.stmt(s['body'])
        steps = []
        for r in self.paths(run):
            if r['out'] == 'end':
                steps += [r['env'][d] for d in ass]
            elif r['out'] != 'brk':
                raise Unk('while loop exit')
        self.loops = getattr(self, 'loops', {})
        for d, b in ass.items():
            self.loops[('iterate', d)] = (b, tuple(steps))
        if self.cond(s['cond']):
            raise Dead()

    def s_omp(self, s):
        self.stmt(s['body'])

    def s_try(self, s):
        raise Unk('try')

    # ---- driver
    def function(self, f, args, fields=None, this=None):
        def run():
            self.H, self.env, self.path, self.exits, self.events = {}, {}, [], [], []
            self.nid = 1000
            t = this
            if fields is not None:
                t = ('obj', 0)
                self.H[t] = dict(kind='self', log=[], sort=None, f={})
                for k, v in fields.items():
                    if v[0] == 'newmap':
                        o = ('obj', len(self.H)); self.H[o] = dict(kind='map', log=[], sort=None, base=v[1], field=True); v = o
                    elif v[0] == 'newarr':
                        o = ('obj', len(self.H)); self.H[o] = dict(kind='arr', log=[], sort=None, base=v[1]); v = o
                    self.H[t]['f'][k] = v
            self.this = t
            for p, a in zip(f['params'], args):
                self.env[p['d']] = a
            for x in f.get('inits') or []:
                self.initmem(x)
            self.stmt(f['body'])
        for a in ('H', 'env', 'path', 'exits', 'events', 'dec', 'dpos'):
            self.__dict__.pop(a, None)
        self.steps = 0
        return self.paths(run)

    def initmem(self, x):
        if x.get('field'):
            v = self.val(x['e'])
            t = self.H[self.this]['f']
            if v[0] == 'obj' and self.H[v]['kind'] == 'map' and not self.H[v]['log'] and self.H[v].get('base') is None:
                self.H[v]['field'] = True
            t[x['field']] = v
        else:
            raise Unk('delegating constructor')


class Dead(Exception):
    pass


MVT = 'brille::MapVertexType::'
P_, A_, SP_, SA_ = [('enum', MVT + x) for x in ('Pristine', 'Appended', 'SecondPristine', 'SecondAppended')]
CRAFTED = ('enum', 'brille::AddVertexType::Crafted')
B, APP, NAPP = ('B',), ('app',), ('n',)


def vms_fields():
    return {'pristine_': ('pristine',), 'appended_': ('newarr', APP), 'preserve_': ('newmap', B), 'appended_count_': NAPP, 'preserve_count_': ('pc',), 'relative_': ('relative',), 'digits_': ('digits',)}


def pathstr(p):
    def s(v):
        if isinstance(v, tuple):
            if v[:1] == ('enum',): return v[1].split('::')[-1]
            return '(' + ' '.join(s(x) for x in v) + ')'
        return str(v)
    return ' and '.join(('' if q else 'not ') + s(a) for a, q in p)[:300] or 'always'


class P25:
    def __init__(self, C, F):
        self.C, self.F = C, F

    def fun(self, csn, fn, pred=None):
        out = [f for f in self.F.methods('brille::' + csn) if f['fn'] == fn and f.get('body') and (pred is None or pred(f))]
        out = [f for f in out if not f.get('dep')]
        return out[0] if out else None

    def free(self, fn, q):
        out = [f for f in self.F.concrete() if f['fn'] == fn and f.get('body') and q in f['q']]
        return out[0] if out else None

    def run(self, rule, f, what, *a, opaque=(), **k):
        """interpret f; a failed interpretation is undecided"""
        if f is None:
            self.C.undecided(rule, what + ': function not found'); return None
        I = Interp(self.F, opaque)
        try:
            r = I.function(f, *a, **k)
        except (Unk, KeyError, IndexError, TypeError, AttributeError) as e:
            self.C.instance('functions interpreted', what + ' (undecided)')
            self.C.undecided(rule, '%s at %s: %s %s' % (what, loc(f), type(e).__name__, str(e)[:120])); return None
        self.I = I
        self.C.instance('functions interpreted', what)
        return r

    def judge(self, rule, f, what, ok, msg, seen=()):
        """record one obligation; a difference that involves a value not modelled is undecided"""
        if ok:
            self.C.instance(rule, what)
        elif any(has_unk(x) for x in seen):
            self.C.undecided(rule, what + ': value not modelled')
        else:
            self.C.bad(rule, what, loc(f), msg)

    # ------------------------------------------------------------------ VertexMapSet
    def preserve(self):
        R = 'preserve'
        f = self.fun('VertexMapSet', 'preserve')
        rs = self.run(R, f, 'VertexMapSet::preserve', [('idx',)], vms_fields())
        for r in rs or []:
            self.preserved(R, f, 'preserve', r, ('idx',), r['path'])

    def preserved(self, R, f, what, r, idx, path):
        """the path ends with `idx` preserved under the returned number"""
        m = r['H'][('obj', 0)]['f']['preserve_']
        present = next((q for a, q in path if a == ('in', B, idx)), None)
        log = r['H'][m]['log'] if m[0] == 'obj' else []
        v = r['val']
        w = '%s [%s]' % (what, pathstr([x for x in path if x[0][0] == 'in']))
        if r['out'] != 'ret':
            return self.judge(R, f, w, False, '%s: ends without an index when %s' % (what, pathstr(path)))
        if present is None:
            return self.C.undecided(R, w + ': presence of the key is not tested')
        if present:
            self.judge(R, f, w + ' value', fst(v) == P_ and snd(v) == ('get', B, idx), '%s: returns %s for an already preserved vertex instead of (Pristine, the number stored for it)' % (what, pathstr([(v, True)])), [v])
            self.judge(R, f, w + ' unchanged', not log, '%s: changes the preserved numbers although the vertex was already preserved' % what)
        else:
            n = ('size', B)
            last = next((e['val'] for e in reversed(log) if e['key'] == idx), None)
            self.judge(R, f, w + ' number', last == n and all(e['key'] == idx for e in log), '%s: a newly preserved vertex gets number %s instead of the count of those preserved before it' % (what, pathstr([(last or ('none',), True)])), [last or ()])
            self.judge(R, f, w + ' value', fst(v) == P_ and snd(v) == last, '%s: returns %s for a newly preserved vertex stored under %s' % (what, pathstr([(v, True)]), pathstr([(last or ('none',), True)])), [v])

    def add(self):
        R = 'add'
        for fn, args, vert in (('add', [('vertex',), ('type',)], ('vertex',)), ('origin_index', [], None)):
            f = self.fun('VertexMapSet', fn)
            rs = self.run(R, f, 'VertexMapSet::' + fn, args, vms_fields())
            for r in rs or []:
                self.addpath(R, f, fn, r, vert)

    def addpath(self, R, f, fn, r, vert):
        path = r['path']
        rows = {}
        for a, q in path:
            for x in sub(a):
                if x[:2] == ('arr', 'row_is'):
                    rows.setdefault(x[2], set()).add(x)
        pr, ap = rows.get(('pristine',), set()), rows.get(APP, set())
        st = r['H'][('obj', 0)]
        app = r['H'][st['f']['appended_']]
        m = r['H'][st['f']['preserve_']]
        n1 = st['f']['appended_count_']
        v = r['val']
        if vert is None:
            x = next((x for x in pr | ap), None)
            vert = x[4] if x else None
        w = '%s: %s' % (fn, pathstr(path))
        for x in pr | ap:
            self.judge(R, f, '%s compares %s exactly' % (fn, x[2][0]), x[3:] == (('glob', 'brille::cmp::eq'), vert, ('relative',), ('relative',), ('digits',)) or x[3:] == (('enum', 'brille::cmp::eq'), vert, ('relative',), ('relative',), ('digits',)),
                       '%s: candidate vertices in %s are not compared with the given vertex for equality within the set\'s own tolerances: %s' % (fn, x[2][0], pathstr([(x, True)])), x)
        def known(x, n=None):
            """truth of 'x matches something' on the path (None: not tested)"""
            c = ('arr', 'count', x) + ((n,) if n else ())
            t = None
            for a, q in path:
                if a == ('pos', aslin(c)):
                    t = q
                if a == ('pos', aslin(ladd(c, lin(1), -1))) and q:
                    return 2
            return t
        crafted = next((q for a, q in path if a[0] == 'eqv' and CRAFTED in a[1:] and ('type',) in a[1:]), None)
        pm = [known(x) for x in pr]
        am = [known(x, NAPP) for x in ap]
        if r['out'] == 'throw':
            self.judge(R, f, w, 2 in pm or 2 in am, '%s: throws although at most one vertex matches (%s)' % (fn, pathstr(path)))
            return
        if r['out'] != 'ret':
            return self.judge(R, f, w, False, fn + ': ends without an index')
        if fst(v) == P_:
            x = next((x for x in pr if known(x)), None)
            if not x:
                return self.judge(R, f, w, False, '%s: reports a pristine vertex although none was found equal (%s)' % (fn, pathstr(path)))
            self.preserved(R, f, fn, r, ('arr', 'first', x), path)
            self.judge(R, f, w + ' appended untouched', not app['log'] and n1 == NAPP, '%s: changes the appended vertices although the vertex is pristine' % fn)
            return
        if fst(v) != A_:
            return self.C.undecided(R, w)
        empty = any(a == ('pos', aslin(NAPP)) and not q for a, q in path)
        searched = crafted is True or (pr and not any(pm) and None not in pm)
        self.judge(R, f, w + ' pristine searched', bool(searched), '%s: a vertex not known to be crafted is handled as appended without having been looked for among the pristine vertices (%s)' % (fn, pathstr(path)))
        self.judge(R, f, w + ' preserved untouched', not m['log'], '%s: changes the preserved numbers for an appended vertex' % fn)
        sets = [e for e in app['log'] if e['op'] == 'set']
        if not sets and n1 == NAPP:
            x = next((x for x in ap if known(x, NAPP)), None)
            self.judge(R, f, w, x is not None and any(a == ('pos', aslin(NAPP)) and q for a, q in path) and snd(v) in (('arr', 'first', x, NAPP), ('arr', 'first', x)), '%s: returns appended index %s without storing the vertex, which is not the position of an equal vertex among the first appended_count_ (%s)' % (fn, pathstr([(snd(v), True)]), pathstr(path)), [v])
            return
        self.judge(R, f, w + ' new', empty or (ap and not any(am) and None not in am), '%s: stores the vertex again although an equal one may be among those appended (%s)' % (fn, pathstr(path)))
        self.judge(R, f, w + ' place', len(sets) == 1 and sets[0]['key'] == NAPP and sets[0]['val'] == vert, '%s: the new vertex is not stored at the end of the appended vertices' % fn)
        self.judge(R, f, w + ' index', snd(v) == NAPP, '%s: returns %s for a vertex stored as number appended_count_' % (fn, pathstr([(snd(v), True)])), [v])
        self.judge(R, f, w + ' count', n1 == ladd(NAPP, lin(1)), '%s: appended_count_ becomes %s after one vertex was appended' % (fn, pathstr([(n1, True)])), [n1])
        size = ('size', APP)
        for e in app['log']:
            if e['op'] == 'resize': size = e['val']
            if e['op'] == 'set': break
        self.judge(R, f, w + ' room', nonneg(ladd(size, ladd(NAPP, lin(1)), -1), path), '%s: the appended storage may hold only %s vertices when vertex number appended_count_ is stored (%s)' % (fn, pathstr([(size, True)]), pathstr(path)), [size])
        for e in app['log']:
            if e['op'] == 'resize':
                self.judge(R, f, w + ' kept', nonneg(ladd(e['val'], NAPP, -1), path), '%s: shrinks the appended storage below appended_count_' % fn)

    def accessors(self):
        R = 'accessor'
        want = {'appended': ('view', APP, lin(0), NAPP), 'appended_count': NAPP, 'preserved_count': ('size', B), 'pristine_count': ('size', ('pristine',)), 'pristine': ('pristine',), 'relative': ('relative',), 'digits': ('digits',)}
        for fn, t in want.items():
            f = self.fun('VertexMapSet', fn)
            for r in self.run(R, f, fn, [], vms_fields()) or []:
                self.judge(R, f, fn, r['out'] == 'ret' and r['val'] == t, 'VertexMapSet::%s() returns %s' % (fn, pathstr([(r['val'] or ('nothing',), True)])), [r['val'] or ()])
        f = self.fun('VertexMapSet', 'preserved')
        for r in self.run(R, f, 'preserved', [], vms_fields()) or []:
            v = r['val']
            self.judge(R, f, 'preserved', v and v[0] == 'obj' and r['H'][v]['base'] == B and not r['H'][v]['log'], 'VertexMapSet::preserved() is not the map of preserved vertices')
        f = self.fun('VertexMapSet', 'reserve_appended')
        for r in self.run(R, f, 'reserve_appended', [('total',)], vms_fields()) or []:
            for e in r['H'][r['H'][('obj', 0)]['f']['appended_']]['log']:
                self.judge(R, f, 'reserve_appended', e['op'] == 'resize' and (nonneg(ladd(e['val'], ('size', APP), -1), r['path'])), 'VertexMapSet::reserve_appended may shrink the storage of the appended vertices to %s' % pathstr([(e.get('val', ()), True)]))

    def ctors(self):
        R = 'constructor'
        for f in self.F.methods('brille::VertexMapSet'):
            if f['K'] != 'ctor' and f['fn'] != 'VertexMapSet' or f.get('copy') or f.get('move') or f.get('dep') or not f.get('body') or not f.get('params'):
                continue
            names = [strip_t(p.get('t', '')) for p in f['params']]
            args, roles, na = [], {}, 0
            for p in f['params']:
                t = strip_t(p['t'])
                if 'Array' in t:
                    role = 'pristine_' if na == 0 else 'appended_'; na += 1
                    a = ('arg', role)
                elif 'map' in t:
                    role, a = 'preserve_', ('fld', ('arg',), 'preserve_')
                elif core.bare(t) == 'int':
                    role, a = 'digits_', ('arg', 'digits')
                else:
                    role, a = 'relative_', ('arg', 'relative')
                roles[role] = a
                args.append(a)
            fields = {'appended_': ('newarr', ('none',)), 'preserve_': ('newmap', None), 'appended_count_': lin(0), 'preserve_count_': lin(0), 'relative_': ('unk', 'relative'), 'digits_': ('unk', 'digits'), 'pristine_': ('unk', 'pristine')}
            w = 'VertexMapSet(%d arguments%s)' % (len(args), ', moved' if '&&' in f['params'][0]['t'] else '')
            for r in self.run(R, f, w, args, fields) or []:
                st = r['H'][('obj', 0)]['f']
                for role, a in roles.items():
                    v = st[role]
                    if v[0] == 'obj':
                        v = r['H'][v].get('base')
                    self.judge(R, f, w + ' ' + role, v == a, '%s: %s does not receive the argument meant for it but %s' % (w, role, pathstr([(v or ('nothing',), True)])), [v or ()])
                want = ('size', ('arg', 'appended_')) if 'appended_' in roles else lin(0)
                self.judge(R, f, w + ' appended_count_', st['appended_count_'] == want, '%s: appended_count_ starts as %s' % (w, pathstr([(st['appended_count_'], True)])), [st['appended_count_']])

    def consolidate(self):
        R = 'consolidate'
        f = self.fun('VertexMapSet', 'consolidate')
        for r in self.run(R, f, 'consolidate', [], vms_fields()) or []:
            v = r['val']
            H = r['H']
            w = 'consolidate: ' + pathstr(r['path'])
            if r['out'] != 'ret' or v[0] != 'obj' or 'ctor' not in H[v]:
                self.C.undecided(R, w + ': result'); continue
            a = H[v]['ctor']
            nz = next((q for x, q in r['path'] if x == ('pos', aslin(NAPP))), None)
            nv = a[0]
            ex = nv[1] if nv[0] == 'cat' and len(nv) == 4 and False else nv
            if nv[0] == 'cat':
                self.judge(R, f, w + ' order', len(nv) == 4 and nv[1] == lin(0) and nv[3] in (('view', APP, lin(0), NAPP), ('view', APP, NAPP)), 'consolidate: the appended vertices do not follow the preserved ones as the first appended_count_ entries of the storage: %s' % pathstr([(nv, True)]), [nv])
                ex = nv[2] if len(nv) == 4 else nv
            else:
                self.judge(R, f, w + ' complete', nz is False, 'consolidate: the appended vertices are left out when %s' % pathstr(r['path']))
            ok = ex[:3] == ('arr', 'extract', ('pristine',)) and ex[3][0] == 'obj'
            if not ok:
                self.judge(R, f, w + ' extract', False, 'consolidate: the preserved vertices are not extracted from the pristine ones', [nv]); continue
            seq = H[ex[3]]
            es = [e for e in seq['log'] if e['op'] == 'push']
            src = order = None
            if len(es) == 1:
                e = es[0]
                g = [x for x in e['path'] if x not in r['path']]
                order = e.get('order')
                src = (g, e['val'])
            good = src is not None and len(src[0]) == 1 and src[0][0][0][:2] == ('in', B) and src[0][0][1] and src[1] == src[0][0][0][2]
            self.judge(R, f, w + ' keys', good, 'consolidate: what is extracted is not exactly the preserved pristine indices', [src[1]] if src else [('unk',)])
            self.judge(R, f, w + ' by number', order == 'second', 'consolidate: the preserved vertices are not extracted in the order of their numbers (order: %s)' % (order or 'of the keys'))
            pr = a[1] if len(a) > 1 and a[1][0] == 'obj' else None
            if pr:
                ps = [e for e in H[pr]['log'] if e['op'] == 'put']
                g = [x for x in ps[0]['path'] if x not in r['path']] if len(ps) == 1 else []
                good = len(g) == 1 and g[0][0][0] == 'range' and g[0][0][2] == lin(0) and g[0][0][3] == ('size', nv) and ps[0]['key'] == g[0][0][1] and ps[0]['val'] == g[0][0][1]
                self.judge(R, f, w + ' identity', good, 'consolidate: the consolidated set does not number its vertices in place')
            self.judge(R, f, w + ' tolerances', a[2:] == (('relative',), ('digits',)), 'consolidate: the tolerances are not carried over', [a])

    # ------------------------------------------------------------------ VertexIndexMap
    D = ('D',)

    def vim(self):
        D = self.D
        F_ = {'data_': ('newmap', D)}
        R = 'index map'
        f = self.fun('VertexIndexMap', 'replace')
        for r in self.run(R, f, 'replace', [('was',), ('to',)], F_) or []:
            W = [e for e in r['events'] if e['op'] == 'write']
            logs = [e for i, o in r['H'].items() for e in o.get('log', [])]
            if not W:
                self.C.undecided(R, 'replace: no write recognised'); continue
            for e in W:
                el = e['key']
                g = set(e['path'])
                need = {(('eqv',) + tuple(sorted((('fst', el), ('fst', ('was',))), key=repr)), True), (('eqv',) + tuple(sorted((('snd', el), ('snd', ('was',))), key=repr)), True)}
                inn = {x for x in g if x[0][0] in ('in', 'at?')}
                allin = el[0] == 'at' and el[1][:2] == ('get', D) and inn == {(('in', D, el[1][2]), True), (('at?', el[1], el[2]), True)}
                self.judge(R, f, 'replace target', e['val'] == ('to',), 'VertexIndexMap::replace writes %s instead of the replacement' % pathstr([(e['val'], True)]), [e['val']])
                self.judge(R, f, 'replace guard', allin and g - inn == need, 'VertexIndexMap::replace changes entries when %s instead of exactly those equal to the value replaced' % pathstr(e['path']), [el])
            self.judge(R, f, 'replace all', not [x for x in r['exits']], 'VertexIndexMap::replace may stop before all entries were examined')
        # copies
        f = self.fun('VertexIndexMap', 'first_copy')
        for r in self.run(R, f, 'first_copy', [], F_) or []:
            v = r['val']
            self.judge(R, f, 'first_copy', v[0] == 'vim' and self.same(r['H'], v[1], D), 'VertexIndexMap::first_copy is not a copy of the map', [v])
        f = self.fun('VertexIndexMap', 'second_copy')
        for r in self.run(R, f, 'second_copy', [], F_) or []:
            v = r['val']
            if v[0] != 'vim' or v[1][0] != 'obj':
                self.C.undecided(R, 'second_copy: result'); continue
            es = [e for e in r['H'][v[1]]['log'] if e['op'] == 'put']
            if len(es) != 1 or es[0]['val'][0] != 'obj':
                self.C.undecided(R, 'second_copy: construction'); continue
            e = es[0]
            g = e['path']
            self.judge(R, f, 'second_copy nodes', len(g) == 1 and g[0][0][:2] == ('in', D) and e['key'] == g[0][0][2], 'VertexIndexMap::second_copy does not keep every node under its own index')
            k = e['key']
            pu = [x for x in r['H'][e['val']]['log'] if x['op'] == 'push']
            for src, dst in ((P_, SP_), (A_, SA_)):
                hit = [x for x in pu if self.holds(x['path'], src)]
                self.judge(R, f, 'second_copy ' + src[1], len(hit) == 1 and fst(hit[0]['val']) == dst and snd(hit[0]['val'])[0] == 'snd' and snd(hit[0]['val'])[1][:2] == ('at', ('get', D, k)),
                           'VertexIndexMap::second_copy turns (%s, i) into %s' % (src[1].split('::')[-1], pathstr([(hit[0]['val'], True)]) if hit else 'nothing'), [hit[0]['val']] if hit else ())
            for src in (SP_, SA_):
                self.judge(R, f, 'second_copy ' + src[1], not [x for x in pu if self.holds(x['path'], src)], 'VertexIndexMap::second_copy accepts an entry that already is a second one')
        f = self.fun('VertexIndexMap', 'has_second')
        for r in self.run(R, f, 'has_second', [], F_) or []:
            if r['val'] is None or r['val'][0] != 'bool':
                self.C.undecided(R, 'has_second'); continue
            for t, want in ((P_, False), (A_, False), (SP_, True), (SA_, True)):
                hit = [x for x in r['exits'] if x['kind'] == 'ret' and self.holds(x['path'], t)]
                got = {x['val'][1] for x in hit if x['val'][0] == 'bool'} or {r['val'][1]}
                self.judge(R, f, 'has_second ' + t[1], got == {want}, 'VertexIndexMap::has_second answers %s for an entry of type %s' % (sorted(got), t[1].split('::')[-1]))
        for f in [f for f in self.F.methods('brille::VertexIndexMap') if f['fn'] == 'decode' and f.get('body')]:
            one = len(f['params']) == 3
            rs = self.run(R, f, 'decode', [('offset',), ('node',), ('vertex',)][:len(f['params'])], F_)
            for r in rs or []:
                if one:
                    self.decoded(R, f, 'decode', r['path'], r['out'], r['val'], ('at', ('get', D, ('node',)), ('vertex',)))
                elif r['out'] == 'ret' and r['val'][0] == 'obj':
                    L = [e for e in r['H'][r['val']]['log'] if e['op'] == 'push']
                    for e in L + [dict(path=x['path'], val=None, out='throw') for x in r['exits']]:
                        el = next((x for a, q in e['path'] if a[0] == 'at?' for x in [('at', a[1], a[2])]), None)
                        if el:
                            self.decoded(R, f, 'decode all', e['path'], e.get('out', 'ret'), e['val'], el)
                    self.judge(R, f, 'decode all source', all(('at?', ('get', D, ('node',))) == a[:2] for e in L for a, q in e['path'] if a[0] == 'at?'), 'VertexIndexMap::decode does not go through the vertices of the node asked for')
        for f in [f for f in self.F.methods('brille::VertexIndexMap') if f['fn'] == 'get' and f.get('body') and len(f['params']) == 2]:
            for r in self.run(R, f, 'get', [('node',), ('vertex',)], F_) or []:
                inn = next((q for a, q in r['path'] if a == ('in', D, ('node',))), None)
                ranged = any(a == ('pos', aslin(ladd(('size', ('get', D, ('node',))), ('vertex',), -1))) and q for a, q in self.canon(r['path']))
                if r['out'] == 'ret':
                    self.judge(R, f, 'get found', inn is True and ranged and r['val'] == ('at', ('get', D, ('node',)), ('vertex',)), 'VertexIndexMap::get returns %s when %s' % (pathstr([(r['val'], True)]), pathstr(r['path'])), [r['val']])
                else:
                    self.judge(R, f, 'get refused: ' + pathstr(r['path']), not (inn is True and ranged), 'VertexIndexMap::get refuses an entry that exists')
        f = self.fun('VertexIndexMap', 'has')
        for r in self.run(R, f, 'has', [('node',)], F_) or []:
            v = r['val']
            ok = v == ('cond', ('in', D, ('node',)), True) or v[0] == 'bool' and ((('in', D, ('node',)), v[1]) in r['path'])
            self.judge(R, f, 'has', ok, 'VertexIndexMap::has(node) does not tell whether the node is in the map', [v])
        f = self.fun('VertexIndexMap', 'merge')
        for r in self.run(R, f, 'merge', [('other',)], F_) or []:
            m = [e for e in r['events'] if e['op'] == 'merge']
            self.judge(R, f, 'merge', len(m) == 1 and m[0]['args'] == (('fld', ('other',), 'data_'),), 'VertexIndexMap::merge does not merge the data of the other map into its own')
            left = pos(('size', ('fld', ('other',), 'data_')))
            v = r['val']
            ok = v == ('cond',) + left or v[0] == 'bool' and ((left[0], left[1] == v[1]) in r['path'])
            self.judge(R, f, 'merge result', ok, 'VertexIndexMap::merge does not report whether entries were left over', [v])
        f = self.fun('VertexIndexMap', 'append')
        for r in self.run(R, f, 'append', [('node',), ('value',)], F_) or []:
            ok = [e for e in r['events'] if e['op'] == 'push' and e['val'] == ('value',)] or [e for i, o in r['H'].items() for e in o.get('log', []) if e['op'] == 'push' and e['val'] == ('value',)]
            self.judge(R, f, 'append', len(ok) == 1, 'VertexIndexMap::append does not append the value')
        f = self.fun('VertexIndexMap', 'set')
        for r in self.run(R, f, 'set', [('node',), ('vertex',), ('value',)], F_) or []:
            ev = [e for e in r['events'] + [e for i, o in r['H'].items() for e in o.get('log', [])] if e['op'] == 'assign']
            self.judge(R, f, 'set', len(ev) == 1 and ev[0]['key'] == ('vertex',) and ev[0]['val'] == ('value',), 'VertexIndexMap::set does not store the value for the given vertex')

    def canon(self, path):
        out = []
        for a, q in path:
            out.append((a, q))
            if a[0] == 'pos' and not q:
                p = pos(ladd(lin(1), a[1], -1))
                out.append((('pos', ladd(lin(1), a[1], -1)), True))
            if a[0] == 'pos' and q:
                pass
        # canonical sign may have turned a > 0 into not(1 - a > 0)
        return [(('pos', aslin(a[1])), q) if a[0] == 'pos' else (a, q) for a, q in out]

    def decoded(self, R, f, what, path, out, val, el):
        if out != 'throw' and val is None:
            return self.C.undecided(R, what)
        ts = [t for t in (P_, A_, SP_, SA_) if self.holds(path, t, el)]
        for t in ts:
            want = {P_: ('snd', el), A_: ladd(('offset',), ('snd', el))}.get(t)
            if want is None:
                self.judge(R, f, '%s %s' % (what, t[1]), out == 'throw', 'VertexIndexMap::%s decodes an entry of a second map' % what)
            elif out == 'throw':
                # may be refused only because it does not exist
                self.judge(R, f, '%s %s refused: %s' % (what, t[1], pathstr(path)), any(a[0] in ('in', 'pos') for a, q in path) and not any(a[0] == 'eqv' for a, q in path), 'VertexIndexMap::%s refuses an entry of type %s' % (what, t[1].split('::')[-1]))
            else:
                self.judge(R, f, '%s %s' % (what, t[1]), val == want, 'VertexIndexMap::%s gives %s for (%s, i)' % (what, pathstr([(val, True)]), t[1].split('::')[-1]), [val])

    def same(self, H, v, D):
        """container v holds exactly what D does"""
        if v == D:
            return True
        if v[0] != 'obj':
            return False
        o = H[v]
        if o.get('base') is not None:
            return not o['log'] and self.same(H, o['base'], D)
        if len(o['log']) == 1 and o['log'][0]['op'] == 'put':
            e = o['log'][0]
            g = e['path']
            if len(g) == 1 and g[0][0][:2] == ('in', D) and e['key'] == g[0][0][2]:
                x = e['val']
                if x == ('get', D, e['key']):
                    return True
                if x[0] == 'obj':
                    pu = H[x]['log']
                    return len(pu) == 1 and pu[0]['op'] == 'push' and pu[0]['val'][:2] == ('at', ('get', D, e['key'])) and len(pu[0]['path']) == 2
        return False

    def holds(self, path, t, el=None):
        """the guards on the type of the entry are satisfied by type t"""
        for a, q in path:
            if a[0] == 'eqv':
                e = next((x for x in a[1:] if x[0] == 'enum'), None)
                o = next((x for x in a[1:] if x[0] == 'fst'), None)
                if e and o and (el is None or o == ('fst', el)):
                    if (e == t) != q:
                        return False
        return True

    # ------------------------------------------------------------------ knitting
    def combine(self):
        R = 'combine'
        f = self.free('combine', 'vertex_maps::combine')
        rs = self.run(R, f, 'combine', [('pair', ('vms1',), ('vim1',)), ('pair', ('vms2',), ('vim2',))],
                      opaque=('replace', 'first_copy', 'second_copy', 'has_second', 'merge', 'add', 'reserve_appended'))
        if not rs:
            return
        B1, B2 = ('fld', ('vms1',), 'preserve_'), ('fld', ('vms2',), 'preserve_')
        A1, A2 = ('fld', ('vms1',), 'appended_'), ('fld', ('vms2',), 'appended_')
        n1, n2 = ('fld', ('vms1',), 'appended_count_'), ('fld', ('vms2',), 'appended_count_')
        two = ('ev', 'second_copy', ('vim2',), ())
        one = ('ev', 'first_copy', ('vim1',), ())
        for r in rs:
            w = 'combine: ' + ('throws' if r['out'] == 'throw' else 'returns')
            H = r['H']
            ev = r['events']
            self.judge(R, f, 'difference by key', not [e for e in ev if e['op'] == 'misuse'], 'combine: set_difference compares by something else than the key both maps are ordered by')
            chk = {fn: next((q for a, q in r['path'] if a[0] == 'pos' and ('ev', fn) == tuple(unlin(a[1])[:2])), None) for fn in ('has_second', 'merge')}
            if r['out'] == 'throw':
                self.judge(R, f, w + pathstr(r['path']), chk['has_second'] or chk['merge'], 'combine: throws although all entries were replaced and the maps share no node')
                continue
            if r['out'] != 'ret':
                self.C.undecided(R, w); continue
            self.judge(R, f, 'unreplaced entries refused', chk['has_second'] is False, 'combine: returns without having excluded entries left unreplaced in the second map')
            self.judge(R, f, 'shared nodes refused', chk['merge'] is False, 'combine: returns without having excluded nodes present in both maps')
            rep = [e for e in ev if e['op'] == 'replace']
            if any(e['on'] != two for e in rep) or any(has_unk(e['args']) for e in rep):
                self.judge(R, f, 'replaced map', not [e for e in rep if e['on'] != two], 'combine: replaces entries in something else than the copy of the second map', [x for e in rep for x in e['args']])
                if any(has_unk(e['args']) for e in rep):
                    self.C.undecided(R, 'combine: a replacement is not understood'); continue
            vm = [e for e in ev if e['op'] == 'vms']
            if not vm:
                self.C.undecided(R, 'combine: the combined set is not built here'); continue
            out = vm[0]['on']
            a = vm[0]['args']
            prev = a[2] if len(a) > 2 else None
            puts = [e for e in H[prev]['log'] if e['op'] == 'put'] if prev and prev[0] == 'obj' else []
            # 1. vertices seen by both
            k = ('k!',)
            for eq in (True, False):
                hits = []
                for e in rep:
                    m = self.cases(e, B1, B2, both=True, equal=eq, k=k)
                    if m is not None:
                        hits.append(m)
                good = [h for h in hits if h == ((SP_, ('get', B2, k)), (P_, ('get', B1, k)))]
                if eq:
                    good = [h for h in hits if h[0] == (SP_, ('get', B1, k)) and h[1] == (P_, ('get', B1, k))]
                self.judge(R, f, 'seen by both, numbers %s' % ('equal' if eq else 'different'), len(good) >= 1, 'combine: entries of the second map for a pristine vertex seen by both parts (%s numbers) are not replaced by (Pristine, its number in the first part)' % ('equal' if eq else 'different'))
                wrong = [h for h in hits if h not in good]
                self.judge(R, f, 'seen by both only once, numbers %s' % ('equal' if eq else 'different'), not wrong, 'combine: entries for a vertex seen by both parts are replaced wrongly: %s' % (pathstr([(x, True) for x in wrong[0]]) if wrong else ''))
            # 2. vertices seen only by the second
            hits = [(e, self.cases(e, B1, B2, both=False, equal=None, k=k)) for e in rep]
            hits = [(e, h) for e, h in hits if h is not None]
            pk = [(e, self.putcase(e, B1, B2, k)) for e in puts]
            pk = [(e, h) for e, h in pk if h is not None]
            self.judge(R, f, 'seen only by the second', len(hits) == 1 and hits[0][1][0] == (SP_, ('get', B2, k)) and hits[0][1][1][0] == P_, 'combine: entries of the second map for pristine vertices that only it has seen are not replaced by Pristine ones')
            if len(hits) == 1:
                new = hits[0][1][1][1]
                ok = aslin(new)
                rank = [x for x, c in ok[2] if x[0] == 'rank' and c == 1]
                rest = ladd(new, rank[0], -1) if rank else new
                self.judge(R, f, 'new numbers are consecutive', len(rank) == 1 and rest == ('size', B1), 'combine: new pristine vertices get numbers %s instead of consecutive ones following those of the first part' % pathstr([(new, True)]), [new])
                stored = [h for e, h in pk]
                self.judge(R, f, 'new numbers are recorded', len(stored) == 1 and stored[0] == (k, new), 'combine: the numbers given to new pristine vertices (%s) are not those recorded in the combined set (%s)' % (pathstr([(new, True)]), pathstr([(x[1], True) for x in stored])), [new])
                early = prev and vm and ev.index(vm[0]) < max([ev.index(e) for e, h in hits] or [0]) and False
            first = [e for e in puts if len(e['path']) == 1 and e['path'][0][0][:2] == ('in', B1) and e['key'] == e['path'][0][0][2] and e['val'] == ('get', B1, e['key'])]
            base = prev and prev[0] == 'obj' and (H[prev].get('base') == B1 or len(first) == 1)
            self.judge(R, f, 'first part kept', bool(base), 'combine: the combined set does not keep the numbers of the first part')
            # 3. appended vertices
            want_a = (('fld', ('vms1',), 'pristine_'), ('view', A1, lin(0), n1))
            self.judge(R, f, 'combined set', a[:2] == want_a and a[3:] == (('fld', ('vms1',), 'relative_'), ('fld', ('vms1',), 'digits_')), 'combine: the combined set is not built from the first part: %s' % pathstr([(x, True) for x in a[:2] + a[3:]]), a)
            app = [e for e in rep if fst(e['args'][0]) == SA_]
            good = False
            if len(app) == 1:
                e = app[0]
                g = [x for x in e['path'] if x not in r['path']]
                i = snd(e['args'][0])
                t = e['args'][1]
                x2 = ('view', A2, lin(0), n2)
                good = len(g) == 1 and g[0][0] == ('range', i, lin(0), n2) and t[:3] == ('ev', 'add', out) and t[3][0] == ('view', x2, i) and (len(t[3]) == 1 or t[3][1][0] == 'enum')
            self.judge(R, f, 'appended vertices', good, 'combine: not every appended vertex i of the second part is added to the combined set and (SecondAppended, i) replaced by where it went: %s' % (pathstr([(x, True) for x in app[0]['args']]) if app else 'missing'), [x for e in app for x in e['args']])
            for e in rep:
                self.judge(R, f, 'replaced by first kinds', fst(e['args'][0]) in (SP_, SA_), 'combine: replaces entries that are not marked as second: %s' % pathstr([(e['args'][0], True)]), e['args'])
            v = r['val']
            self.judge(R, f, 'result', v == ('pair', out, one), 'combine: does not return the combined set with the merged copy of the first map', [v])
            mg = [e for e in ev if e['op'] == 'merge']
            self.judge(R, f, 'merged', len(mg) == 1 and mg[0]['on'] == one and mg[0]['args'] == (two,), 'combine: does not merge the replaced second map into the copy of the first')
            # replacing happens before the check and the merge
            hs = [e for e in ev if e['op'] == 'has_second']
            self.judge(R, f, 'replaced before merged', bool(hs) and max(ev.index(e) for e in rep) < ev.index(hs[-1]) and ev.index(hs[-1]) < ev.index(mg[0]), 'combine: the leftover check does not stand between the last replacement and the merge')

    def cases(self, e, B1, B2, both, equal, k):
        """the (was, to) of a replacement for a generic vertex k of the given case, or None when it does not happen for k"""
        keys = [a[2] for a, q in e['path'] if a[0] == 'in' and a[1] in (B1, B2)]
        if not keys:
            return None
        m = {keys[0]: k}
        g = [(subst(a, m), q) for a, q in e['path']]
        for a, q in g:
            if a == ('in', B1, k):
                if q != both:
                    return None
            elif a == ('in', B2, k):
                if not q:
                    return None
            elif a[0] == 'eqv' and set(a[1:]) == {('get', B1, k), ('get', B2, k)}:
                if q != equal:
                    return None
            elif a[0] == 'in' or a[0] == 'eqv':
                return None
        was, to = (subst(x, m) for x in e['args'])
        if equal:
            was, to = (subst(x, {('get', B2, k): ('get', B1, k)}) for x in (was, to))
        return ((fst(was), snd(was)), (fst(to), snd(to)))

    def putcase(self, e, B1, B2, k):
        keys = [a[2] for a, q in e['path'] if a[0] == 'in' and a[1] in (B1, B2)]
        if not keys:
            return None
        m = {keys[0]: k}
        g = [(subst(a, m), q) for a, q in e['path']]
        for a, q in g:
            if a == ('in', B1, k) and q:
                return None
            if a == ('in', B2, k) and not q:
                return None
        if not any(a == ('in', B2, k) for a, q in g):
            return None
        return (subst(e['key'], m), subst(e['val'], m))

    def steps(self):
        R = 'reduce'
        inp = ('input',)
        for fn in ('reduce', 'parallel_reduce'):
            f = self.free(fn, 'steps::' + fn)
            for r in self.run(R, f, 'steps::' + fn, [inp], opaque=('combine',)) or []:
                if r['out'] != 'ret' or r['val'][0] != 'obj':
                    self.C.undecided(R, 'steps::' + fn); continue
                L = [e for e in r['H'][r['val']]['log'] if e['op'] in ('push', 'assign')]
                half = ('div', ('size', inp), lin(2))
                pairs = [e for e in L if e['val'][:2] == ('ev', 'combine')]
                good = False
                if len(pairs) == 1:
                    e = pairs[0]
                    g = [x for x in e['path'] if x not in r['path']]
                    if len(g) == 1 and g[0][0][0] == 'range':
                        i = g[0][0][1]
                        good = g[0][0][2:] == (lin(0), half) and e['val'][3] == (('at', inp, lmul(lin(2), i)), ('at', inp, ladd(lmul(lin(2), i), lin(1)))) and (e['op'] == 'push' or e['key'] == i)
                        if e['op'] == 'assign':
                            rs = [x for x in r['H'][r['val']]['log'] if x['op'] == 'resize']
                            good = good and len(rs) == 1 and rs[0]['val'] == half
                self.judge(R, f, fn + ' pairs', good, 'steps::%s does not combine parts 2i and 2i+1 into part i for every i: %s' % (fn, pathstr([(x, True) for x in pairs[0]['val'][3]]) if pairs else 'none'), [e['val'] for e in pairs])
                odd = [q for a, q in r['path'] if self.oddness(a, inp)]
                last = [e for e in L if e not in pairs]
                ok = odd == [True] and len(last) == 1 and last[0]['op'] == 'push' and last[0]['val'] in (('back', inp), ('at', inp, ladd(('size', inp), lin(1), -1)), ('at', inp, lmul(lin(2), half))) or odd == [False] and not last
                if not odd and r['path']:
                    self.C.undecided(R, fn + ' odd part'); continue
                odd = odd or [not last]
                self.judge(R, f, fn + ' odd part: %s' % odd, ok, 'steps::%s %s' % (fn, 'loses the last part of an odd number' if odd == [True] else 'repeats a part of an even number'), [e['val'] for e in last])
            f = next((g for g in self.F.concrete() if g['fn'] == fn and g.get('body') and g['q'].replace('steps::', '') == g['q'] and 'vertex_maps' in g['q']), None)
            for r in self.run(R, f, fn, [inp], opaque=(fn, 'consolidate_pair')) or []:
                single = [q for a, q in r['path'] if a[0] in ('eqv', 'zero', 'pos') and 'input' in repr(a)]
                v = r['val']
                if r['out'] != 'ret':
                    self.C.undecided(R, fn); continue
                if v == ('at', inp, lin(0)):
                    one = any(a == ('zero', aslin(ladd(('size', inp), lin(1), -1))) and q or a[0] == 'zero' and q and set(x for x, _ in a[1][2]) == {('size', inp)} and abs(a[1][1]) == 1 for a, q in r['path'])
                    self.judge(R, f, fn + ' single', one, '%s returns its first part although there may be others' % fn)
                    continue
                if v[:2] != ('ev', 'consolidate_pair'):
                    self.C.undecided(R, fn + ': result'); continue
                x = v[3][0]
                it = x[1] if x[0] == 'at' and x[2] == lin(0) else None
                lo = self.I.loops.get(it) if it and hasattr(self.I, 'loops') else None
                step = lambda a: ('ev', fn, ('free', None), (a,))
                sok = lambda v, a: v[:2] == ('ev', fn) and v[3] == (a,)
                ok = lo is not None and (sok(lo[0], inp)) and len(lo[1]) >= 1 and all(sok(s, it) for s in lo[1])
                self.judge(R, f, fn + ' tree', ok, '%s does not reduce all its parts pairwise before consolidating the first' % fn, [x])
                ex = any(a == ('pos', aslin(ladd(('size', it), lin(1), -1))) and not q for a, q in r['path']) if it else False
                self.judge(R, f, fn + ' until one', ex, '%s may stop reducing while more than one part is left' % fn, [x])
        f = self.free('consolidate_pair', 'steps::consolidate_pair')
        for r in self.run(R, f, 'consolidate_pair', [('pair', ('vms',), ('vim',))], opaque=('replace', 'consolidate')) or []:
            if r['out'] != 'ret':
                self.C.undecided(R, 'consolidate_pair'); continue
            rep = [e for e in r['events'] if e['op'] == 'replace']
            pre, app = ('size', ('fld', ('vms',), 'preserve_')), ('fld', ('vms',), 'appended_count_')
            ok = False
            if len(rep) == 1:
                e = rep[0]
                g = [x for x in e['path'] if x not in r['path']]
                if len(g) == 1 and g[0][0][0] == 'range':
                    i = g[0][0][1]
                    ok = g[0][0][2:] == (lin(0), app) and e['args'] == (('pair', A_, i), ('pair', P_, ladd(i, pre))) and e['on'] == ('vim',)
            self.judge(R, f, 'consolidate_pair shift', ok, 'consolidate_pair does not replace every (Appended, i) by (Pristine, preserved count + i): %s' % (pathstr([(x, True) for x in rep[0]['args']] + [y for y in rep[0]['path']]) if rep else 'nothing replaced'), [x for e in rep for x in e['args']])
            v = r['val']
            self.judge(R, f, 'consolidate_pair result', v == ('pair', ('ev', 'consolidate', ('vms',), ()), ('vim',)), 'consolidate_pair does not return the consolidated set with the shifted map', [v])

    def oddness(self, a, inp):
        if a[0] == 'zero':
            s = dict(a[1][2])
            return ('div', ('size', inp), lin(2)) in s
        if a[0] == 'pos':
            return ('mod', ('size', inp), lin(2)) in [x for x, _ in a[1][2]]
        return a[0] == 'eqv' and ('mod', ('size', inp), lin(2)) in a[1:]


def sub(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from sub(x)


def run(tier):
    C = Check('P25', tier, 'VertexMapSet, VertexIndexMap and the knitting functions are interpreted with their containers as families (for every binder such that guards: key -> value), every loop body once for a generic element and every path. Adding: an equal pristine vertex gives (Pristine, its preserved number), new ones get the count; an equal appended vertex gives its position, new ones are stored at the count, with room, and counted. Knitting: every entry of the second map is replaced by the number of the equal vertex in the result, numbers are consecutive and recorded, leftovers and shared nodes refused; reduction keeps every part; consolidation orders by number and appends.')
    F = C.facts(['d_util.cpp'])
    P = P25(C, F)
    P.preserve(); P.add(); P.accessors(); P.ctors(); P.consolidate(); P.vim(); P.combine(); P.steps()
    C.floor('functions interpreted', 10)
    C.assumptions += ['Array::row_is marks the rows equal to the vertex, count/first(n) consider the first n flags, extract and cat keep order (P05, P10)',
                      'std::map, std::vector, std::sort and std::set_difference behave as specified',
                      'pristine vertices are pairwise different within the tolerances and so are the numbers stored in each preserved map']
    return C.finish()
