"""Bit-provenance dataflow for a class whose state is one unsigned word.

Every integer is a vector of bit values, each of them: 0, 1, ('s',i) bit i of the state at entry, ('p',name,i) bit i of a
parameter, ('not',b), ('sum',k,A,B,j) bit j of the sum A+B of the bits from k up, or 'T' (anything). Conditions on single bits
refine the bits on each side of a branch. Paths through branches are kept apart (there are no loops in such classes)."""
W = 32


class Unsupported(Exception):
    pass


def const_word(v, w=W):
    v = int(v)
    return tuple((v >> i) & 1 for i in range(w))


def zext(x, w, signed=False):
    x = tuple(x)
    if len(x) >= w:
        return x[:w]
    return x + ((x[-1] if signed else 0),) * (w - len(x))


def width(t):
    t = t.replace('const ', '').replace(' const', '').replace('&', '').strip()
    return {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
            'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}.get(t)


def signed(t):
    t = t.replace('const ', '').replace(' const', '').replace('&', '').strip()
    return t in ('char', 'signed char', 'short', 'int', 'long', 'long long')


def bnot(b):
    if b == 'T':
        return 'T'
    if b in (0, 1):
        return 1 - b
    if b[0] == 'not':
        return b[1]
    if b[0] == 'any':
        return ('none', b[1])
    if b[0] == 'none':
        return ('any', b[1])
    return ('not', b)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a == bnot(b):
        return 0
    if is_none(a) is not None and is_none(b) is not None:
        return mknone(is_none(a) | is_none(b))
    return 'T'


def bor(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    if a == bnot(b):
        return 1
    if is_any(a) is not None and is_any(b) is not None:
        return mkany(is_any(a) | is_any(b))
    return 'T'


def is_any(b):
    if isinstance(b, tuple):
        if b[0] == 'any':
            return b[1]
        if b[0] in ('s', 'p', 'sum'):
            return frozenset([b])
    return None


def is_none(b):
    if isinstance(b, tuple):
        if b[0] == 'none':
            return b[1]
        if b[0] == 'not' and is_any(b[1]) is not None:
            return is_any(b[1])
    return None


def mkany(s):
    return next(iter(s)) if len(s) == 1 else ('any', frozenset(s))


def mknone(s):
    return ('not', next(iter(s))) if len(s) == 1 else ('none', frozenset(s))


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1:
        return bnot(b)
    if b == 1:
        return bnot(a)
    if a == b and a != 'T':
        return 0
    if a == bnot(b) and a != 'T':
        return 1
    return 'T'


def add(a, b):
    """a + b as words: disjoint bits are merged; from the first overlapping bit on the bits belong to a sum."""
    out = []
    for i in range(len(a)):
        if a[i] == 0:
            out.append(b[i])
        elif b[i] == 0:
            out.append(a[i])
        else:
            A, B = tuple(a[i:]), tuple(b[i:])
            if all(x in (0, 1) for x in A + B):
                v = sum(x << j for j, x in enumerate(A)) + sum(x << j for j, x in enumerate(B))
                return tuple(out) + tuple((v >> j) & 1 for j in range(len(A)))
            if 'T' in A or 'T' in B:
                return tuple(out) + ('T',) * len(A)
            if str(A) > str(B):
                A, B = B, A
            return tuple(out) + tuple(('sum', i, A, B, j) for j in range(len(A)))
    return tuple(out)


def negate(a):
    one = const_word(1, len(a))
    if all(x in (0, 1) for x in a):
        v = (-sum(x << j for j, x in enumerate(a))) % (1 << len(a))
        return const_word(v, len(a))
    return ('T',) * len(a)


def is_const(a):
    return sum(x << j for j, x in enumerate(a)) if all(x in (0, 1) for x in a) else None


def nonzero(a):
    if any(x == 1 for x in a):
        return 1
    live = [x for x in a if x != 0]
    if not live:
        return 0
    s = frozenset()
    for x in live:
        v = is_any(x)
        if v is None:
            if len(live) == 1:
                return x
            return 'T'
        s |= v
    return mkany(s)


class Path:
    def __init__(self, word, env=None, facts=None, bounds=()):
        self.word, self.env, self.facts, self.bounds = word, dict(env or {}), dict(facts or {}), tuple(bounds)

    def fork(self):
        return Path(self.word, self.env, self.facts, self.bounds)


class Bits:
    """Evaluates the methods of one class: run(fn) -> [(path, kind 'return'|'throw', value)]."""

    def __init__(self, F, csn, field):
        self.F, self.csn, self.field = F, csn, field

    def run(self, fn, word=None, args=None, facts=None, bounds=()):
        w = word if word is not None else tuple(('s', i) for i in range(W))
        p = Path(w, facts=facts, bounds=bounds)
        for i, prm in enumerate(fn['params']):
            if args is not None:
                p.env[prm['d']] = args[i]
            else:
                ww = width(prm['t'])
                if ww is None:
                    raise Unsupported('parameter type ' + prm['t'])
                p.env[prm['d']] = tuple(('p', prm['n'], j) for j in range(ww))
        outs, paths = [], [p]
        for it in fn.get('inits') or []:
            nm = it.get('field')
            if nm == self.field and it.get('e'):
                nxt = []
                for q in paths:
                    for q2, v in self.ev(it['e'], q):
                        q2.word = zext(v, W); nxt.append(q2)
                paths = nxt
        paths = self.block(fn['body'], paths, outs)
        outs += [(q, 'return', None) for q in paths]
        return outs

    # statements: take live paths, return live paths; finished ones go to outs
    def block(self, n, paths, outs):
        k = n['k']
        if k == 'block':
            for c in n['c']:
                paths = self.block(c, paths, outs)
                if not paths:
                    break
            return paths
        if k == 'decl':
            for v in n['c']:
                nxt = []
                for p in paths:
                    if v.get('init') is None:
                        p.env[v['d']] = None; nxt.append(p); continue
                    for q, val in self.ev(v['init'], p):
                        w = width(v['t'])
                        if w is None:
                            raise Unsupported('local of type ' + v['t'])
                        q.env[v['d']] = zext(val, w); nxt.append(q)
                paths = nxt
            return paths
        if k == 'if':
            live = []
            for p in paths:
                for q, t in self.branch(n['cond'], p):
                    b = n.get('then') if t else n.get('else')
                    live += self.block(b, [q], outs) if b else [q]
            return live
        if k == 'return':
            for p in paths:
                if n.get('e') is None:
                    outs.append((p, 'return', None)); continue
                for q, v in self.ev(n['e'], p):
                    outs.append((q, 'return', v))
            return []
        if k == 'throw':
            outs += [(p, 'throw', None) for p in paths]
            return []
        nxt = []
        for p in paths:
            if k in ('null', 'empty'):
                nxt.append(p); continue
            if k == 'throw':
                continue
            for q, v in self.ev(n, p):
                if v == 'throw':
                    outs.append((q, 'throw', None))
                else:
                    nxt.append(q)
        return nxt

    def branch(self, c, p):
        """[(path, truth)] with each path refined by the condition."""
        k = c['k']
        if k == 'cast' or k == 'paren':
            if not (k == 'cast' and width(c['e'].get('t', 'bool')) != 1):
                return self.branch(c['e'], p)
        if k == 'un' and c['op'] == '!':
            return [(q, not t) for q, t in self.branch(c['e'], p)]
        if k == 'bin' and c['op'] == '&&':
            out = []
            for q, t in self.branch(c['a'], p):
                out += self.branch(c['b'], q) if t else [(q, False)]
            return out
        if k == 'bin' and c['op'] == '||':
            out = []
            for q, t in self.branch(c['a'], p):
                out += [(q, True)] if t else self.branch(c['b'], q)
            return out
        if k == 'bin' and c['op'] in ('<', '<=', '>', '>=', '==', '!='):
            out = []
            for q, a in self.ev(c['a'], p):
                for r, b in self.ev(c['b'], q):
                    n = max(len(a), len(b)); a2, b2 = zext(a, n), zext(b, n)
                    if c['op'] in ('==', '!='):
                        d = [bxor(x, y) for x, y in zip(a2, b2)]
                        diff = nonzero(d) if 'T' not in d else 'T'
                        # two different single bits: equality makes them the same bit
                        pair = [(x, y) for x, y in zip(a2, b2) if x != y]
                        for t in (True, False):
                            s = r.fork()
                            equal = (c['op'] == '==') == t
                            if diff in (0, 1):
                                if (diff == 0) != equal:
                                    continue
                            elif len(pair) == 1:
                                x, y = pair[0]
                                self.learn(s, x, y if equal else bnot(y))
                            out.append((s, t))
                    else:
                        ca, cb = is_const(a2), is_const(b2)
                        for t in (True, False):
                            if ca is not None and cb is not None:
                                v = {'<': ca < cb, '<=': ca <= cb, '>': ca > cb, '>=': ca >= cb}[c['op']]
                                if v != t:
                                    continue
                            s = r.fork()
                            op = c['op'] if t else {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[c['op']]
                            s.bounds += ((op, a2, b2),)
                            # (x & mask) > 0 says: some bit is set
                            if cb == 0 and op == '<=':
                                for x in a2:
                                    if x not in (0, 1, 'T'):
                                        self.learn(s, x, 0)
                            out.append((s, t))
            return out
        out = []
        for q, v in self.ev(c, p):
            b = nonzero(v)
            for t in (True, False):
                if b in (0, 1) and bool(b) != t:
                    continue
                s = q.fork()
                if b not in (0, 1, 'T'):
                    if not t and is_any(b):
                        for x in is_any(b):
                            self.learn(s, x, 0)
                    elif t and is_none(b):
                        for x in is_none(b):
                            self.learn(s, x, 0)
                    elif b[0] == 'not':
                        self.learn(s, b[1], 0 if t else 1)
                    elif b[0] in ('s', 'p'):
                        self.learn(s, b, 1 if t else 0)
                out.append((s, t))
        return out

    def learn(self, p, x, y):
        """On this path bit x equals bit y: state bits are rewritten to parameter bits or constants."""
        def base(z):
            return z[1] if isinstance(z, tuple) and z[0] == 'not' else z
        if isinstance(y, tuple) and base(y)[0] == 's' and not (isinstance(x, tuple) and base(x)[0] == 's'):
            x, y = y, x
        if not isinstance(x, tuple):
            x, y = y, x
        if isinstance(x, tuple) and x[0] == 'not':
            x, y = x[1], bnot(y)
        if isinstance(x, tuple) and x[0] in ('s', 'p'):
            p.facts[x] = y

    def know(self, p, b):
        for _ in range(4):
            if isinstance(b, tuple) and b in p.facts:
                b = p.facts[b]
            elif isinstance(b, tuple) and b[0] == 'not' and b[1] in p.facts:
                b = bnot(p.facts[b[1]])
            else:
                break
        return b

    def ev(self, n, p):
        """[(path, bits)]"""
        if 'v' in n and isinstance(n['v'], (str, int)) and width(n.get('t', 'int')):
            try:
                return [(p, const_word(int(n['v']), width(n['t'])))]
            except ValueError:
                pass
        k = n['k']
        if k in ('int', 'bool', 'char'):
            v = n['v']
            v = {'true': 1, 'false': 0}.get(v, v)
            return [(p, const_word(int(v), width(n.get('t', 'int')) or W))]
        if k == 'zero':
            return [(p, const_word(0, width(n.get('t', 'int')) or W))]
        if k == 'init' and len(n['c']) == 1:
            return self.ev(n['c'][0], p)
        if k == 'init' and not n['c']:
            return [(p, const_word(0, width(n.get('t', 'int')) or W))]
        if k == 'paren':
            return self.ev(n['e'], p)
        if k == 'cast':
            out = []
            t = n.get('t', '')
            w = width(t)
            for q, v in self.ev(n['e'], p):
                if w is None:
                    raise Unsupported('cast to ' + t)
                if w == 1:
                    out.append((q, (nonzero(v),)))
                else:
                    out.append((q, zext(v, w, signed(n['e'].get('t', '')) and not all(x in (0,) for x in v[-1:]))))
            return out
        if k == 'ref':
            if n.get('d') in p.env:
                v = p.env[n['d']]
                if v is None:
                    raise Unsupported('unset local')
                return [(p, tuple(self.know(p, b) for b in v))]
            raise Unsupported('reference to ' + n['n'])
        if k == 'mem' and n['n'] == self.field and n['e']['k'] == 'this':
            return [(p, tuple(self.know(p, b) for b in p.word))]
        if k == 'un':
            op = n['op']
            if op == '!':
                return [(q, (bnot(nonzero(v)),)) for q, v in self.ev(n['e'], p)]
            if op == '~':
                return [(q, tuple(bnot(b) for b in v)) for q, v in self.ev(n['e'], p)]
            if op == '+':
                return self.ev(n['e'], p)
            if op == '-':
                return [(q, negate(v)) for q, v in self.ev(n['e'], p)]
            if op in ('++', '--'):
                out = []
                for q, v in self.ev(n['e'], p):
                    nv = add(v, const_word(1 if op == '++' else (1 << len(v)) - 1, len(v)))
                    self.assign(n['e'], nv, q)
                    out.append((q, v if n.get('post') else nv))
                return out
            raise Unsupported('unary ' + op)
        if k == 'cond':
            out = []
            for q, t in self.branch(n['c'], p):
                out += self.ev(n['a'] if t else n['b'], q)
            return self.join(out, p)
        if k == 'bin':
            op = n['op']
            if op == '=':
                out = []
                for q, v in self.ev(n['b'], p):
                    w = width(n['a'].get('t', '')) or W
                    self.assign(n['a'], zext(v, w), q); out.append((q, zext(v, w)))
                return out
            if op in ('&&', '||'):
                out = []
                for q, a in self.ev(n['a'], p):
                    for r, b in self.ev(n['b'], q):
                        x, y = nonzero(a), nonzero(b)
                        out.append((r, (band(x, y) if op == '&&' else bor(x, y),)))
                return out
            if op == ',':
                return [r for q, _ in self.ev(n['a'], p) for r in self.ev(n['b'], q)]
            asg = op.endswith('=') and op not in ('==', '!=', '<=', '>=')
            o = op[:-1] if asg else op
            out = []
            for q, a in self.ev(n['a'], p):
                for r, b in self.ev(n['b'], q):
                    v = self.arith(o, a, b, n)
                    if asg:
                        v = zext(v, width(n['a'].get('t', '')) or W)
                        self.assign(n['a'], v, r)
                    out.append((r, v))
            return out
        if k == 'call':
            if n.get('cls') == self.csn and n.get('obj', {}).get('k') == 'this':
                fs = [self.F.funcs[n['f']]] if n.get('f') in self.F.funcs else []
                if not fs:
                    raise Unsupported('call of ' + n.get('fn', '?'))
                paths = [(p, [])]
                for a in n['args']:
                    paths = [(r, args + [v]) for q, args in paths for r, v in self.ev(a, q)]
                out = []
                for q, args in paths:
                    args = [zext(a, width(prm['t']) or W) for a, prm in zip(args, fs[0]['params'])]
                    for r, kind, v in self.run(fs[0], q.word, args, q.facts, q.bounds):
                        s = q.fork(); s.word, s.facts, s.bounds = r.word, r.facts, r.bounds
                        out.append((s, 'throw' if kind == 'throw' else v))
                return out
            nm = n.get('fn', '')
            if nm in ('max', 'min') and n.get('cls', '').startswith('std::numeric_limits'):
                w = width(n['t'])
                hi = (1 << (w - 1)) - 1 if signed(n['t']) else (1 << w) - 1
                return [(p, const_word(hi if nm == 'max' else 0, w))]
            raise Unsupported('call of ' + nm)
        raise Unsupported(k)

    def arith(self, o, a, b, n):
        w = max(len(a), len(b))
        if o not in ('<<', '>>'):
            a, b = zext(a, w), zext(b, w)
        if o == '&':
            return tuple(band(x, y) for x, y in zip(a, b))
        if o == '|':
            return tuple(bor(x, y) for x, y in zip(a, b))
        if o == '^':
            return tuple(bxor(x, y) for x, y in zip(a, b))
        if o == '+':
            return add(a, b)
        if o == '-':
            c = is_const(b)
            if c is not None:
                bits = [j for j in range(w) if (c >> j) & 1]
                if all(a[j] == 1 for j in bits):
                    return tuple(0 if j in bits else a[j] for j in range(w))
                return add(a, negate(b))
            if all(y == 0 or x == y for x, y in zip(a, b)):
                return tuple(0 if y != 0 else x for x, y in zip(a, b))
            return ('T',) * w
        if o in ('<<', '>>'):
            c = is_const(b)
            if c is None:
                return ('T',) * len(a)
            return ((0,) * c + tuple(a))[:len(a)] if o == '<<' else tuple(a[c:]) + (0,) * min(c, len(a))
        if o in ('==', '!='):
            d = [bxor(x, y) for x, y in zip(a, b)]
            if len([x for x in d if x != 0]) == 1 and 'T' in d:
                return ('T',)
            z = nonzero(d)
            return (bnot(z) if o == '==' else z,)
        if o in ('<', '>', '<=', '>='):
            ca, cb = is_const(a), is_const(b)
            if cb == 0 and o == '>':
                return (nonzero(a),)
            if ca == 0 and o == '<':
                return (nonzero(b),)
            if cb == 0 and o == '<=':
                return (bnot(nonzero(a)),)
            if cb == 1 and o == '>=':
                return (nonzero(a),)
            if cb == 1 and o == '<':
                return (bnot(nonzero(a)),)
            return ('T',)
        if o == '*':
            for x, y in ((a, b), (b, a)):
                c = is_const(y)
                if c is not None and c and c & (c - 1) == 0:
                    s = c.bit_length() - 1
                    return ((0,) * s + tuple(x))[:w]
                if c == 0:
                    return (0,) * w
            return ('T',) * w
        if o == '/':
            c = is_const(b)
            if c and c & (c - 1) == 0:
                s = c.bit_length() - 1
                return tuple(a[s:]) + (0,) * s
            return ('T',) * w
        if o == '%':
            c = is_const(b)
            if c and c & (c - 1) == 0:
                s = c.bit_length() - 1
                return tuple(a[:s]) + (0,) * (w - s)
            return ('T',) * w
        raise Unsupported(o)

    def join(self, outs, p):
        return outs

    def assign(self, lhs, v, p):
        while lhs['k'] in ('cast', 'paren'):
            lhs = lhs['e']
        if lhs['k'] == 'mem' and lhs['n'] == self.field and lhs['e']['k'] == 'this':
            p.word = tuple(v)
        elif lhs['k'] == 'ref' and lhs.get('d') in p.env:
            p.env[lhs['d']] = tuple(v)
        else:
            raise Unsupported('assignment to ' + lhs['k'])
