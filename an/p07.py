"""P07: out-of-range positions are refused before storage is touched (guard analysis with positions kept relative to extents).

Each checked entry point is interpreted abstractly: the caller's position is a symbol k, every extent a symbol of its own, and the
only thing known of them is the region under study (k < n, k = n-1, k = n, k > n, k < 0).  Integers are affine in those symbols;
a comparison is decided where the region decides it and followed both ways where it does not.  Callees are entered."""
import re
import core
from core import Check, walk, loc

INT = re.compile(r'^(const )?(unsigned|int|long|size_t|short|std::size_t|ind_t|uint|brille::ind_t)\b[^*]*$')
STD = re.compile(r'^(const )?std::(vector|array|deque|basic_string|__cxx11::basic_string|string|map|set|unordered_map|list|initializer_list)\b')
MAPS = re.compile(r'^(const )?std::(map|set|unordered_map|multimap)\b')
ITER = re.compile(r'iterator')
MUT = {'erase', 'insert', 'push_back', 'emplace_back', 'clear', 'resize', 'assign', 'emplace', 'pop_back', 'swap', 'fill', 'reserve'}


class Aff:
    __slots__ = ('t', 'c')

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c = c

    def add(self, o, s=1):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + s * v
        return Aff(t, self.c + s * o.c)

    def mul(self, m):
        return Aff({k: v * m for k, v in self.t.items()}, self.c * m)

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)


class Thr(Exception):
    pass


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Big(Exception):
    pass


def bare(n):
    while n is not None and n.get('k') in ('cast', 'paren') and n.get('e') is not None:
        n = n['e']
    return n


def cstd(t):
    m = re.match(r'^(?:const )?std::array<.*, (\d+)(?:UL)?>\s*(?:&|const)?$', t or '')
    if m:
        return int(m.group(1))
    m = re.search(r'\[(\d+)\]$', t or '')
    return int(m.group(1)) if m else None


def strip(q):
    d, o = 0, ''
    for c in q:
        d += c == '<'
        if not d: o += c
        d -= c == '>'
    return o


class Region:
    def __init__(self, name, forms, refuse):
        self.name, self.forms, self.refuse = name, forms, refuse      # forms: [(coefs, lo, hi)]

    def interval(self, a):
        inf = float('inf')

        def termwise(t, c):
            lo = hi = c
            for s, m in t.items():
                l, h = 0, inf
                for f, fl, fh in self.forms:
                    if f == {s: 1}:
                        l, h = max(l, fl), min(h, fh)
                if s in self.signed:
                    l = -inf if not any(f == {s: 1} for f, _, _ in self.forms) else [fl for f, fl, _ in self.forms if f == {s: 1}][0]
                lo += m * l if m > 0 else m * h
                hi += m * h if m > 0 else m * l
            return lo, hi
        lo, hi = termwise(a.t, a.c)
        for f, fl, fh in self.forms:
            if len(f) < 2:
                continue
            for m in (1, -1):
                rest = dict(a.t)
                for s, v in f.items():
                    rest[s] = rest.get(s, 0) - m * v
                rest = {s: v for s, v in rest.items() if v}
                if len(rest) > max(len(a.t) - 1, 0):
                    continue
                l, h = termwise(rest, a.c)
                l += m * (fl if m > 0 else fh)
                h += m * (fh if m > 0 else fl)
                lo, hi = max(lo, l), min(hi, h)
        return lo, hi
    signed = ()

    def decide(self, op, a, b):
        lo, hi = self.interval(a.add(b, -1))
        if op == '<': return True if hi < 0 else False if lo >= 0 else None
        if op == '<=': return True if hi <= 0 else False if lo > 0 else None
        if op == '>': return True if lo > 0 else False if hi <= 0 else None
        if op == '>=': return True if lo >= 0 else False if hi < 0 else None
        if op in ('==', '!='):
            r = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
            return r if op == '==' or r is None else not r


class PI:
    def __init__(self, F, region, links, choices):
        self.F, self.R, self.links, self.ch, self.pos = F, region, links, choices, 0
        self.bad, self.writes, self.store, self.depth, self.steps = [], [], {}, 0, 0
        self.env, self.th, self.f = {}, ('p', 'this'), None
        self.mixed = None

    def other(self, a):
        """several positions of the caller, or no second extent"""
        ks = [s for s in a.t if re.match(r'^k\d+$', s)]
        return len(ks) != 1 or len(a.t) != 2

    # ---- choices
    def choose(self, n=2):
        if self.pos < len(self.ch):
            r = self.ch[self.pos][0]
        else:
            self.ch.append([0, n])
            r = 0
        self.pos += 1
        return r

    def sym(self, s):
        for a, b in self.links:
            if re.search(a, s):
                s = b
        return Aff({s: 1})

    def involved(self, v):
        return isinstance(v, Aff) and any(s.startswith('k') and s[1:].isdigit() for s in v.t)

    def access(self, path, i, n, t=''):
        if not self.involved(i) or MAPS.match(t or ''):
            return
        c = cstd(t)
        ext = Aff({}, c) if c is not None else self.sym('N:' + path)
        if self.R.decide('<', i, ext) is True and self.R.decide('>=', i, Aff()) is True:
            return
        self.bad.append((path, n.get('l'), self.f, self.show(ext)))

    def show(self, a):
        s = '+'.join(('%s*' % m if m != 1 else '') + k.replace('N:', 'size of ') for k, m in a.t.items())
        return s + ('%+d' % a.c if a.c else '') if s else str(a.c)

    # ---- expressions
    def path(self, v):
        if isinstance(v, tuple) and v[0] in ('p', 'list'):
            return v[1]
        return None

    def ev(self, n):
        if n is None:
            return None
        self.steps += 1
        if self.steps > 20000:
            raise Big()
        m = getattr(self, 'e_' + n['k'], None)
        if m:
            return m(n)
        for x in core.kids(n):
            self.ev(x)
        return None

    def e_int(self, n): return Aff({}, int(n['v']))
    def e_bool(self, n): return ('b', n['v'] in (True, 'true', 1, '1'))
    def e_nullptr(self, n): return ('null',)
    def e_this(self, n): return self.th
    def e_lambda(self, n): return ('lam', n, self.env, self.th, self.f)
    def e_paren(self, n): return self.ev(n['e'])
    def e_sizeof(self, n): return None

    def e_cast(self, n):
        if n.get('v') is not None and re.match(r'^-?\d+$', str(n['v'])):
            return Aff({}, int(n['v']))
        v = self.ev(n['e'])
        if isinstance(v, tuple) and v[0] == 'null':
            return v
        return v

    def e_init(self, n):
        vs = [self.ev(c) for c in n.get('c') or []]
        if STD.match(n.get('t') or '') or n.get('t', '').startswith('brille'):
            flat = []
            for v in vs:
                flat += v[1] if isinstance(v, tuple) and v[0] == 'lst' else [v]
            return ('lst', flat)
        return vs[0] if len(vs) == 1 else ('lst', vs)

    def e_ref(self, n):
        if n.get('v') is not None and re.match(r'^-?\d+$', str(n['v'])):
            return Aff({}, int(n['v']))
        d = n.get('d')
        if d in self.env:
            v = self.env[d]
            if v is None and not INT.match(n.get('t') or ''):
                return ('p', 'L%s' % d)
            return v
        if n.get('dk') == 'global':
            return ('p', 'G:' + n.get('n', ''))
        if n.get('dk') in ('param', 'local', 'binding'):
            return None if INT.match(n.get('t') or '') else ('p', 'L%s' % d)
        return None

    def read(self, path, t):
        if path in self.store:
            return self.store[path]
        if INT.match(t or '') and 'char' not in (t or ''):
            if path.startswith('L') or '[]' in path:
                return None
            return self.sym(path)
        return ('p', path)

    def e_mem(self, n):
        b = self.ev(n['e'])
        if isinstance(b, tuple) and b[0] == 'it':
            self.access(b[1], b[2], n, b[3])
            b = ('p', b[1] + '[]')
        p = self.path(b)
        return self.read(p + '.' + n['n'], n.get('t')) if p else None

    def element(self, o, i, n, t):
        if isinstance(o, tuple) and o[0] == 'list':
            return self.listelem(o)
        if isinstance(o, tuple) and o[0] == 'lst':
            if isinstance(i, Aff) and not i.t and i.c < len(o[1]):
                return o[1][i.c]
            return None
        if isinstance(o, tuple) and o[0] == 'it':
            j = o[2].add(i) if isinstance(i, Aff) and o[2] is not None else None
            self.access(o[1], j, n, o[3])
            return ('p', o[1] + '[]')
        p = self.path(o)
        if p is None:
            return None
        self.access(p, i, n, t)
        q = p + ('[%d]' % i.c if isinstance(i, Aff) and not i.t else '[]')
        return self.read(q, n.get('t'))

    def listelem(self, o):
        return Aff({'k0': 1})

    def e_idx(self, n):
        o, i = self.ev(n['e']), self.ev(n['i'])
        return self.element(o, i, n, n['e'].get('t') or bare(n['e']).get('t'))

    def e_cond(self, n):
        return self.ev(n['a']) if self.truth(n['c']) else self.ev(n['b'])

    def e_un(self, n):
        op = n['op']
        if op == '!':
            return ('b', not self.truth(n['e']))
        v = self.ev(n['e'])
        if op == '*':
            if isinstance(v, tuple) and v[0] == 'it':
                self.access(v[1], v[2], n, v[3])
                return self.listelem(v) if v[4:] else ('p', v[1] + '[]')
            return v
        if op == '&':
            if bare(n['e']).get('k') in ('idx', 'call') and self.path(v):
                return v
            return v
        if op == '-' and isinstance(v, Aff):
            return v.mul(-1)
        if op in ('++', '--') or op.startswith('++') or op.startswith('--'):
            w = v.add(Aff({}, 1 if '+' in op else -1)) if isinstance(v, Aff) else None
            self.assign(n['e'], w)
            return v if n.get('post') else w
        return v if op in ('+', '__extension__') else None

    def assign(self, l, v):
        l = bare(l)
        k = l.get('k')
        if k == 'ref' and l.get('d') is not None:
            old = self.env.get(l['d'])
            if isinstance(old, tuple) and old[0] == 'p' and not old[1].startswith('L'):
                self.wrote(old[1], l)
            self.env[l['d']] = v
            return
        if k == 'idx' or k == 'call' and l.get('opr') == '[]' and len(l['args']) == 2:
            b, i = (bare(l['e']), l['i']) if k == 'idx' else (bare(l['args'][0]), l['args'][1])
            if b.get('k') == 'ref' and isinstance(self.env.get(b.get('d')), tuple) and self.env[b['d']][0] == 'lst':
                j, w = self.ev(i), list(self.env[b['d']][1])
                w += [Aff()] * ((cstd(b.get('t')) or 0) - len(w))
                if isinstance(j, Aff) and not j.t and j.c < len(w):
                    w[j.c] = v
                    self.env[b['d']] = ('lst', w)
                else:
                    self.env[b['d']] = ('lst', [None] * len(w))
                return
        o = self.lval(l)
        if o:
            self.wrote(o, l)
            self.store[o] = v
            if '[]' in o:
                for p in [p for p in self.store if p.startswith(o.split('[]')[0])]:
                    self.store[p] = None

    def lval(self, l):
        k = l.get('k')
        if k == 'mem':
            b = self.ev(l['e'])
            p = self.path(b)
            return p + '.' + l['n'] if p else None
        if k in ('idx', 'call'):
            if k == 'idx':
                o, i = self.ev(l['e']), self.ev(l['i'])
                t = l['e'].get('t')
            elif l.get('opr') == '[]' and len(l['args']) == 2:
                o, i = self.ev(l['args'][0]), self.ev(l['args'][1])
                t = l['args'][0].get('t')
            else:
                v = self.ev(l)
                return self.path(v)
            if isinstance(o, tuple) and o[0] == 'it':
                return None
            p = self.path(o)
            if p is None:
                return None
            self.access(p, i, l, t)
            return p + ('[%d]' % i.c if isinstance(i, Aff) and not i.t else '[]')
        if k == 'un' and l['op'] == '*':
            return self.path(self.ev(l['e']))
        return None

    def wrote(self, path, n):
        if not path.startswith('L') and not path.startswith('G:'):
            self.writes.append((path, n.get('l'), self.f))

    def e_bin(self, n):
        op = n['op']
        if op == '&&':
            return ('b', self.truth(n['a']) and self.truth(n['b']))
        if op == '||':
            return ('b', self.truth(n['a']) or self.truth(n['b']))
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.ev(n['b'])
            if op != '=':
                o = self.ev(n['a'])
                v = self.arith(op[:-1], o, v)
            self.assign(n['a'], v)
            return v
        a, b = self.ev(n['a']), self.ev(n['b'])
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(a, Aff) and isinstance(b, Aff):
                r = self.R.decide(op, a, b)
                if r is None and (self.involved(a) or self.involved(b)) and not self.other(a.add(b, -1)):
                    self.mixed = (n.get('l'), self.f, self.show(a if self.involved(b) else b))
                return ('b', r) if r is not None else None
            if op in ('==', '!=') and isinstance(a, tuple) and isinstance(b, tuple) and 'null' in (a[0], b[0]) and a[0] == b[0]:
                return ('b', op == '==')
            return None
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if isinstance(a, tuple) and a[0] == 'b': a = Aff({}, int(a[1])) if a[1] is not None else None
        if isinstance(b, tuple) and b[0] == 'b': b = Aff({}, int(b[1])) if b[1] is not None else None
        if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, Aff) and op in '+-':
            return ('it', a[1], a[2].add(b, 1 if op == '+' else -1) if a[2] is not None else None) + a[3:]
        if isinstance(b, tuple) and b[0] == 'it' and isinstance(a, Aff) and op == '+':
            return self.arith('+', b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'it' and op == '-' and a[1] == b[1] and a[2] is not None and b[2] is not None:
            return a[2].add(b[2], -1)
        if isinstance(a, Aff) and isinstance(b, Aff):
            if op == '+': return a.add(b)
            if op == '-': return a.add(b, -1)
            if op == '*' and not b.t: return a.mul(b.c)
            if op == '*' and not a.t: return b.mul(a.c)
        return None

    def truth(self, n):
        v = self.ev(n)
        if isinstance(v, tuple) and v[0] == 'b' and v[1] is not None:
            return v[1]
        if isinstance(v, tuple) and v[0] == 'null':
            return False
        if isinstance(v, Aff):
            r = self.R.decide('!=', v, Aff())
            if r is not None:
                return r
        return self.choose() == 1

    # ---- calls
    def e_ctor(self, n):
        vs = [self.ev(a) for a in n.get('args') or []]
        if n.get('copy') or n.get('move') or (len(vs) == 1 and (n.get('ilist') or n.get('list'))):
            return vs[0] if vs else None
        if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'lst':
            return vs[0]
        if len(vs) > 1 and (n.get('list') or n.get('ilist')):
            return ('lst', vs)
        if len(vs) == 1 and STD.match(n.get('cls') or '') and (n['args'][0].get('t') or '').replace('const ', '').rstrip(' &') == (n.get('cls') or ''):
            return vs[0]
        return None

    def lam(self, l, args):
        _, node, env, th, f = l
        return self.enter(node['body'], node.get('params') or [], args, th, f, dict(env))

    def enter(self, body, params, args, th, f, env=None):
        if self.depth > 9:
            return None
        old = self.env, self.th, self.f
        self.env = env if env is not None else {}
        self.th, self.f = th, f
        for j, p in enumerate(params):
            v = args[j] if j < len(args) else None
            self.env[p['d']] = v
        self.depth += 1
        try:
            self.st(body)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.env, self.th, self.f = old

    def small(self, g):
        b = g.get('body')
        return b is not None and sum(1 for _ in walk(b)) < 90 and not any(x['k'] in ('for', 'while', 'do', 'forrange') for x in walk(b))

    def e_call(self, n):
        fn, obj, args = n.get('fn') or '', n.get('obj'), n.get('args') or []
        if n.get('noret'):
            raise Thr()
        q = n.get('q') or ''
        if n.get('opr') == '=' and len(args) == 2:
            v = self.ev(args[1])
            self.assign(args[0], v)
            return v
        vs = [self.ev(a) for a in args]
        ov = self.ev(obj) if obj is not None else None
        if n.get('opr') and obj is None and n.get('cls'):
            ov, obj, vs, args = (vs[0], args[0], vs[1:], args[1:]) if vs else (None, None, vs, args)
        if n.get('opr') == '()' and isinstance(ov, tuple) and ov[0] == 'lam':
            return self.lam(ov, vs)
        if n.get('opr') in ('+', '-') and n.get('cls') and ITER.search(n['cls']):
            return self.arith(n['opr'], ov, vs[0] if vs else None)
        if n.get('opr') in ('==', '!=', '<', '<=', '>', '>=') and not n.get('in'):
            return None
        if n.get('opr') == '*' and isinstance(ov, tuple) and ov[0] == 'it' and not vs:
            self.access(ov[1], ov[2], n, ov[3])
            return Aff({'k0': 1}) if ov[4:] else ('p', ov[1] + '[]')
        if n.get('opr') in ('->', '*') and not vs and not n.get('in'):
            if isinstance(ov, tuple) and ov[0] == 'it':
                self.access(ov[1], ov[2], n, ov[3])
                return ('p', ov[1] + '[]')
            return ('p', self.path(ov) + '[]') if self.path(ov) else None
        cls = n.get('cls') or ''
        if isinstance(ov, tuple) and ov[0] == 'list':
            if fn in ('begin', 'cbegin', 'end', 'cend', 'data'):
                return ('it', ov[1], None, cls, 1)
            if fn in ('operator[]', 'at', 'front', 'back', 'val'):
                return self.listelem(ov)
            if fn in ('size', 'numel', 'length'):
                return self.sym('N:' + ov[1])
            if fn in ('valItr', 'to_std', 'decouple', 'view'):
                return ov
            return None
        if STD.match(cls):
            p = self.path(ov)
            if isinstance(ov, tuple) and ov[0] == 'lst' and fn == 'size':
                return Aff({}, len(ov[1]))
            if fn == 'operator[]':
                if p and MAPS.match(cls) and not n.get('const'):
                    self.wrote(p, n)
                return self.element(ov, vs[0] if vs else None, n, cls)
            if fn == 'at':
                i = vs[0] if vs else None
                if p and isinstance(i, Aff) and not MAPS.match(cls):
                    c = cstd(cls)
                    r = self.R.decide('<', i, Aff({}, c) if c is not None else self.sym('N:' + p))
                    if r is False or (r is None and self.choose()):
                        raise Thr()
                    return self.read(p + '[]', n.get('t'))
                return ('p', p + '[]') if p else None
            if fn in ('size', 'length'):
                c = cstd(cls)
                return Aff({}, c) if c is not None else self.sym('N:' + p) if p else None
            if fn == 'empty' and p:
                r = self.R.decide('==', self.sym('N:' + p), Aff())
                return ('b', r) if r is not None else None
            if fn in ('begin', 'cbegin', 'data') and p:
                return ('it', p, Aff(), cls)
            if fn in ('end', 'cend') and p:
                return ('it', p, self.sym('N:' + p), cls)
            if fn in MUT and isinstance(ov, tuple) and ov[0] == 'lst' and bare(obj).get('k') == 'ref':
                c = cstd(cls)
                self.env[bare(obj)['d']] = ('lst', [vs[0]] * c) if fn == 'fill' and c else None
                return None
            if fn in MUT:
                for v in vs:
                    if isinstance(v, tuple) and v[0] == 'it' and fn == 'erase':
                        self.access(v[1], v[2], n, v[3])
                if p:
                    self.wrote(p, n)
                return None
            if fn in ('front', 'back'):
                return ('p', p + '[]') if p else None
            return None
        if q in ('std::any_of', 'std::all_of', 'std::none_of') or re.match(r'^std::(any_of|all_of|none_of)\b', q):
            if vs and isinstance(vs[0], tuple) and vs[0][0] == 'it' and vs[0][4:] and isinstance(vs[2], tuple) and vs[2][0] == 'lam':
                r = self.lam(vs[2], [Aff({'k0': 1})])
                r = r[1] if isinstance(r, tuple) and r[0] == 'b' else None
                if r is None:
                    r = bool(self.choose())
                bad = self.R.refuse
                # refuse regions: the list holds an element of the region; elsewhere every element is in range
                if 'any_of' in q:
                    return ('b', r) if bad and r or not bad else None
                if 'none_of' in q:
                    return ('b', not r) if bad and r or not bad else None
                return ('b', r) if bad and not r or not bad else None
            return None
        if re.match(r'^std::(begin|cbegin|next|end|cend|size|move|forward|as_const|get|advance|max|min|ref|cref)\b', q):
            v = vs[0] if vs else None
            if fn in ('begin', 'cbegin') and self.path(v):
                return ('it', self.path(v), Aff(), args[0].get('t') or '') + ((1,) if v[0] == 'list' else ())
            if fn in ('end', 'cend') and self.path(v):
                return ('it', self.path(v), self.sym('N:' + self.path(v)), args[0].get('t') or '') + ((1,) if v[0] == 'list' else ())
            if fn == 'size' and self.path(v):
                return self.sym('N:' + self.path(v))
            if fn == 'next' and len(vs) == 2:
                return self.arith('+', v, vs[1])
            return v if fn in ('move', 'forward', 'as_const', 'next', 'ref', 'cref') else None
        g = self.F.funcs.get(n.get('f'))
        rel = any(self.involved(v) or isinstance(v, tuple) and v[0] in ('list', 'it') and self.hot(v) for v in vs) or self.hot(ov)
        if g is not None and g.get('body') is not None and n.get('in') and not g.get('dep') and (rel or self.small(g)):
            th = ov if obj is not None and ov is not None else self.th if obj is not None and bare(obj).get('k') == 'this' else ('p', 'L?')
            if isinstance(th, tuple) and th[0] == 'it':
                th = ('p', th[1] + '[]')
            return self.enter(g['body'], g.get('params') or [], vs, th if isinstance(th, tuple) and th[0] in ('p', 'list') else ('p', 'L?'), g)
        if obj is not None and self.path(ov) and not n.get('const') and n.get('in') and not n.get('opr'):
            self.wrote(self.path(ov), n)
        for a, v, t in zip(args, vs, n.get('pt') or []):
            a = bare(a)
            if t.endswith('&') and not t.startswith('const') and a.get('k') == 'ref' and a.get('d') in self.env and isinstance(self.env[a['d']], (Aff, type(None))):
                self.env[a['d']] = None
        if fn == 'u2s' or fn == 's2u' or fn == 'abs' and False:
            return vs[0] if vs else None
        return None

    def hot(self, v):
        return isinstance(v, tuple) and v[0] == 'list'

    # ---- statements
    def st(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > 20000:
            raise Big()
        k = s['k']
        if k == 'block':
            for c in s['c']:
                self.st(c)
        elif k == 'decl':
            for v in s['c']:
                if v.get('k') == 'var':
                    self.var(v)
        elif k == 'return':
            raise Ret(self.ev(s.get('e')))
        elif k == 'if':
            if s.get('init'):
                self.st(s['init'])
            if s.get('var'):
                self.var(s['var'])
            if self.truth(s['cond']):
                self.st(s['then'])
            else:
                self.st(s.get('else'))
        elif k == 'throw':
            raise Thr()
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cnt()
        elif k in ('for', 'while'):
            if s.get('init'):
                self.st(s['init'])
            if s.get('cond') is not None and not self.truth(s['cond']):
                return
            self.loopbody(s, [s.get('body'), s.get('inc'), s.get('cond')])
        elif k == 'do':
            self.loopbody(s, [s.get('body'), s.get('cond')])
        elif k == 'forrange':
            r = self.ev(s['range'])
            v = s['var']
            if isinstance(r, tuple) and r[0] == 'list':
                self.havoc([s['body']])
                self.env[v['d']] = self.listelem(r)
            else:
                if self.choose() == 0:
                    return
                self.havoc([s['body']])
                p = self.path(r)
                self.env[v['d']] = ('p', p + '[]') if p and not INT.match(v.get('t') or '') else None
            self.body(s['body'])
        elif k == 'switch':
            v = self.ev(s.get('cond') or s.get('e'))
            items = (s.get('body') or {}).get('c') or []
            starts = [j for j, x in enumerate(items) if x['k'] in ('case', 'default')]
            if not starts:
                return
            j = starts[self.choose(len(starts))] if len(starts) > 1 else starts[0]
            try:
                for x in items[j:]:
                    self.st(x)
            except Brk:
                pass
        elif k in ('case', 'default'):
            for x in core.kids(s):
                self.st(x) if x['k'] in ('block', 'return', 'throw', 'break', 'if', 'decl') else self.ev(x)
        elif k == 'try':
            try:
                self.st(s['body'])
            except Thr:
                if not s.get('handlers'):
                    raise
                h = s['handlers'][0]
                self.st(h.get('body') if h.get('body') is not None else h)
        elif k == 'omp':
            for x in core.kids(s):
                self.st(x)
        elif k == 'null':
            pass
        else:
            self.ev(s)

    def body(self, b):
        try:
            self.st(b)
        except Brk:
            pass
        except Cnt:
            pass

    def havoc(self, nodes):
        for b in nodes:
            for x in walk(b or {'k': 'null'}):
                t = None
                if x['k'] == 'un' and ('++' in x['op'] or '--' in x['op']):
                    t = bare(x['e'])
                elif x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                    t = bare(x['a'])
                if t is not None and t.get('k') == 'ref' and t.get('d') in self.env:
                    self.env[t['d']] = None

    def loopbody(self, s, nodes):
        self.havoc(nodes)
        self.body(s.get('body'))
        self.havoc(nodes)

    def var(self, v):
        t = v.get('t') or ''
        if v.get('bind'):
            self.ev(v.get('init'))
            return
        i = v.get('init')
        val = self.ev(i) if i is not None else None
        if isinstance(val, tuple) and val[0] == 'p' and not t.rstrip().endswith(('&', '*', '* const')) and not ITER.search(t):
            # a copy: its elements are its own, what is known of its extents is kept
            if val[1].startswith('L') or val[1].startswith('G:'):
                pass
            else:
                self.env[v['d']] = ('p', 'L%s' % v['d'])
                for p, x in list(self.store.items()):
                    if p.startswith(val[1]):
                        self.store['L%s' % v['d'] + p[len(val[1]):]] = x
                self.links = self.links + [(r'^(N:)?L%s\b' % v['d'], r'x')] if False else self.links
                c = cstd(t)
                if c and c <= 4 and 'int' in t + '':
                    for j in range(c):
                        self.store['L%s[%d]' % (v['d'], j)] = self.store.get('%s[%d]' % (val[1], j), self.sym('%s[%d]' % (val[1], j)))
                return
        self.env[v['d']] = val


def explore(F, f, region, links, args, spec_this=('p', 'this'), limit=600):
    """all abstract outcomes: (kind, value, bad accesses, writes)"""
    out, ch, runs = [], [], 0
    while True:
        p = PI(F, region, links, ch)
        p.f = f
        for a, prm in zip(args, f['params']):
            p.env[prm['d']] = a
        for prm in f['params'][len(args):]:
            p.env[prm['d']] = None
        try:
            try:
                p.st(f['body'])
                out.append(('ret', None, p.bad, p.writes))
            except Ret as r:
                out.append(('ret', r.v, p.bad, p.writes))
            except Thr:
                out.append(('throw', None, p.bad, p.writes, p.mixed))
        except (Brk, Cnt):
            pass
        runs += 1
        if runs > limit:
            raise Big()
        del ch[p.pos:]
        while ch and ch[-1][0] + 1 >= ch[-1][1]:
            ch.pop()
        if not ch:
            return out
        ch[-1][0] += 1


def failed(kind, o, arg):
    """True, False, or None when the value which is returned is not understood"""
    k, v = o[0], o[1]
    if k == 'throw':
        return True
    if kind == 'throw':
        return False
    if v is None or isinstance(v, tuple) and v[0] in ('b', 'lst') and (v[1] is None or v[0] == 'lst' and None in v[1]):
        return None
    if kind == 'false':
        return isinstance(v, tuple) and v[0] == 'b' and v[1] is False
    if kind == 'null':
        return isinstance(v, tuple) and v[0] == 'null'
    if kind in ('zeros', 'identity'):
        want = [0] * 9 if kind == 'zeros' else [1, 0, 0, 0, 1, 0, 0, 0, 1]
        if isinstance(v, tuple) and v[0] == 'lst':
            c = [x.c if isinstance(x, Aff) and not x.t else None for x in v[1]]
            if len(c) < 9:
                c += [0] * (9 - len(c))
            return c == want
        return False if not (isinstance(v, tuple) and v[0] == 'p' and v[1].startswith('L')) else None
    if kind == 'same':
        return isinstance(v, Aff) and v.key() == arg.key()
    return False


K = Aff({'k0': 1})


def one(n, signed=False):
    """regions of one position against the extent n (an affine term with one symbol, or a constant)"""
    inf = float('inf')
    if not n.t:
        c = n.c
        r = [Region('first', [({'k0': 1}, 0, 0)], False), Region('last', [({'k0': 1}, c - 1, c - 1)], False), Region('one past the end', [({'k0': 1}, c, c)], True), Region('far past the end', [({'k0': 1}, c + 1, inf)], True)]
    else:
        s = next(iter(n.t))
        d = {'k0': 1, s: -1}
        e = n.c
        r = [Region('the only one', [({'k0': 1}, 0, 0), ({s: 1}, 1 - e, 1 - e), (d, e - 1, e - 1)], False),
             Region('the last', [({'k0': 1}, 1, inf), ({s: 1}, 2 - e, inf), (d, e - 1, e - 1)], False),
             Region('the first of several', [({'k0': 1}, 0, 0), ({s: 1}, 2 - e, inf), (d, -inf, e - 2)], False),
             Region('one in the middle', [({'k0': 1}, 1, inf), ({s: 1}, 3 - e, inf), (d, -inf, e - 2)], False),
             Region('one past the end', [(d, e, e), ({'k0': 1}, 0, inf)], True),
             Region('far past the end', [(d, e + 1, inf), ({'k0': 1}, 1, inf)], True)]
    if signed:
        x = Region('negative', [({'k0': 1}, -inf, -1)] + ([({**{'k0': 1}, s: -1}, -inf, -1), ({s: 1}, 1, inf)] if n.t else []), True)
        x.signed = ('k0',)
        r.append(x)
    return r


# class, method, (types of the parameters as regular expressions; the position is the one in <>), extent, what a refusal looks like
E = [
    ('brille::Symmetry', 'erase', 0, 'size()', 'throw'), ('brille::Symmetry', 'order', 0, 'size()', 'throw'),
    ('brille::Symmetry', 'pop', 0, 'size()', 'throw'),
    ('brille::Symmetry', 'getr', 0, 'size()', 'any'), ('brille::Symmetry', 'gett', 0, 'size()', 'any'), ('brille::Symmetry', 'getm', 0, 'size()', 'any'),
    ('brille::PointSymmetry', 'erase', 0, 'size()', 'throw'), ('brille::PointSymmetry', 'order', 0, 'size()', 'throw'),
    ('brille::PointSymmetry', 'isometry', 0, 'size()', 'throw'), ('brille::PointSymmetry', 'axis', 0, 'size()', 'throw'),
    ('brille::PointSymmetry', 'perpendicular_axis', 0, 'size()', 'throw'), ('brille::PointSymmetry', 'pop', 0, 'size()', 'throw'),
    ('brille::PointSymmetry', 'set', 0, 'size()', 'false'), ('brille::PointSymmetry', 'get', 0, 'size()', 'false|zeros'),
    ('brille::PointSymmetry', 'get_proper', 0, 'size()', 'zeros'), ('brille::PointSymmetry', 'get_inverse', 0, 'size()', 'identity'),
    ('brille::PointSymmetry', 'get_inverse_index', 0, 'size()', 'same'), ('brille::PointSymmetry', 'data', 0, 'size()', 'null'),
    ('brille::Basis', 'position', 0, 'size()', 'throw'), ('brille::Basis', 'equivalent_after_operation', 0, 'size()', 'throw'),
    ('brille::GammaTable', 'F0', 0, 'n_atoms', 'throw'), ('brille::GammaTable', 'F0', 1, 'n_sym_ops', 'throw'),
    ('brille::GammaTable', 'vector_index', 0, 'n_atoms', 'throw'), ('brille::GammaTable', 'vector_index', 1, 'n_sym_ops', 'throw'),
    ('brille::GammaTable', 'vector', 0, 'n_atoms', 'throw'), ('brille::GammaTable', 'vector', 1, 'n_sym_ops', 'throw'),
    ('brille::TetTriLayer', 'get_tetrahedron', 0, 'number_of_tetrahedra()', 'throw'), ('brille::TetTriLayer', 'neighbours', 0, 'number_of_vertices()', 'throw'),
    ('brille::TetTriLayer', 'locate', 'list0', 'number_of_tetrahedra()', 'throw'),
    ('brille::SimpleTet', 'circumsphere_info', 0, 'size(0) of vertices_per_tetrahedron', 'throw'),
    ('brille::Array2', 'view', 0, 'size(0)', 'throw'), ('brille::Array2', 'extract', 0, 'size(0)', 'throw'), ('brille::Array2', 'extract', 'list0', 'size(0)', 'throw'),
    ('brille::Array', 'view', 0, 'size(0)', 'throw'), ('brille::Array', 'extract', 0, 'size(0)', 'throw'), ('brille::Array', 'extract', 'list0', 'size(0)', 'throw'),
    ('brille::Array', 'slice', 0, 'size(0)', 'throw'),
    ('brille::Array2', 'val', 0, 'size(0)', 'throw'), ('brille::Array2', 'val', 1, 'size(1)', 'throw'), ('brille::Array2', 'ptr', 0, 'size(0)', 'throw'), ('brille::Array2', 'ptr', 1, 'size(1)', 'throw'),
    ('brille::Array', 'val', 0, 'size(0)', 'throw'), ('brille::Array', 'ptr', 0, 'size(0)', 'throw'),
    ('brille::Array2', 'size', 0, 2, 'throw'),
    ('brille::VertexIndexMap', 'get', 1, '=N:row', 'throw'),
    ('brille::polytrellis::PolyTrellis', 'cube_node', 0, 'size() of type NodeContainer', 'throw'), ('brille::polytrellis::PolyTrellis', 'poly_node', 0, 'size() of type NodeContainer', 'throw'),
    ('brille::Spacegroup', 'set_from_hall_number', 0, '=ALL_SPACEGROUPS', 'any'),
    ('brille::Pointgroup', 'setup', 'field:number', 33, 'throw'),
]
LINKS = {'brille::Basis': [(r'^N:this\.types_$', 'N:this.positions_')],
         'brille::TetTriLayer': [(r'^N:this\.tetrahedra_per_vertex$', 'this.nVertices'), (r'^N:this\.circum_radii$|^this\.(vertices_per_tetrahedron|circum_centres)\._shape\[0\]$', 'this.nTetrahedra')],
         'brille::VertexIndexMap': [(r'^N:.*second$', 'N:row')]}


class P07:
    def __init__(self, C, F):
        self.C, self.F = C, F

    def extent(self, f, csn, cls, spec):
        """the extent as an affine term over the object's own symbols"""
        if isinstance(spec, int):
            return Aff({}, spec)
        links = LINKS.get(csn, [])
        if spec == '=ALL_SPACEGROUPS':
            c = next((cstd(x.get('t')) for x in walk(f['body']) if x['k'] == 'ref' and cstd(x.get('t'))), None)
            return Aff({}, c) if c else None
        if spec[0] == '=':
            return Aff({spec[1:]: 1})
        if ' of type ' in spec:
            ty = spec.split()[-1]
            fd = [x['n'] for (q, d), r in self.F.records.items() if strip(q) == csn for x in r.get('fields') or [] if ty in x['t']]
            for g in self.F.funcs.values():
                if fd and g.get('fn') == 'size' and (g.get('csn') or '').endswith(ty) and not g.get('params') and g.get('body') is not None:
                    o = explore(self.F, g, Region('', [], False), links, [])
                    v = o[0][1]
                    if isinstance(v, Aff) and len(v.t) == 1:
                        return Aff({next(iter(v.t)).replace('this', 'this.' + fd[0], 1): 1})
            return None
        m = re.match(r'^(\w+)\((\d*)\)(?: of (\w+))?$', spec)
        if not m:
            ok = any(strip(q) == csn and any(x['n'] == spec for x in r.get('fields') or []) for (q, d), r in self.F.records.items())
            return Aff({'this.' + spec: 1}) if ok else None
        name, arg, of = m.groups()
        for g in self.F.funcs.values():
            if g.get('fn') == name and not g.get('dep') and g.get('body') is not None and len(g.get('params') or []) == (1 if arg else 0) and g.get('cls') == cls if not of else False:
                o = explore(self.F, g, Region('', [], False), links, [Aff({}, int(arg))] if arg else [])
                vals = [x[1] for x in o if x[0] == 'ret' and isinstance(x[1], Aff) and len(x[1].t) == 1]
                if vals:
                    return vals[0]
        if of:
            return Aff({'this.%s._shape[0]' % of: 1})
        return None

    def entry(self, csn, name, which, ext, kind):
        C, F = self.C, self.F
        seen = False
        for f in F.funcs.values():
            if f.get('fn') != name or f.get('csn') != csn or f.get('dep') or f.get('body') is None:
                continue
            ps = f.get('params') or []
            lst = isinstance(which, str) and which.startswith('list')
            fld = isinstance(which, str) and which.startswith('field')
            j = 0 if fld else int(which[4:]) if lst else which
            if not fld and j >= len(ps):
                continue
            t = '' if fld else ps[j]['t']
            if lst and (not re.search(r'(vector|array|Array2?)<', t) or 'bool' in t or re.search(r'double|Array2?<(float|double)', t)):
                continue
            if lst and csn in ('brille::Array2', 'brille::Array') and name != 'extract':
                continue
            if not lst and not fld and (not INT.match(t.rstrip('& ')) or len(ps) > 2 and csn.startswith('brille::Array')):
                continue
            if csn.startswith('brille::Array') and name == 'view' and len(ps) != 1:
                continue
            if csn == 'brille::Array' and len(ps) != 1:
                continue
            key = (f['q'], tuple(p['t'] for p in ps), f.get('const'), which)
            if key in self.done:
                continue
            self.done.add(key)
            what = '%s(%s) position %s' % (f['q'], ', '.join(p['t'] for p in ps), j)
            where = loc(f)
            n = self.extent(f, csn, f.get('cls'), ext)
            if n is None or len(n.t) > 1:
                C.undecided('guard', what + ': its extent is not understood')
                continue
            kk = K
            args = []
            for x in range(len(ps)):
                if x == j and not fld:
                    args.append(('list', 'arg') if lst else K)
                elif INT.match(ps[x]['t'].rstrip('& ')):
                    args.append(None)
                else:
                    args.append(('p', 'A%d' % x))
            signed = not fld and not lst and not re.search(r'unsigned|size_t|ind_t', t)
            if lst:
                signed = not re.search(r'unsigned|size_t|ind_t', t)
            if fld:
                signed = True
            seen = True
            for r in one(n, signed):
                if lst:
                    r.forms = r.forms + [({'N:arg': 1}, 1, float('inf'))]
                links = list(LINKS.get(csn, []))
                if fld:
                    links.append((r'^this\.%s$' % which.split(':')[1], 'k0'))
                try:
                    outs = explore(F, f, r, links, args)
                except Big:
                    C.undecided('guard', '%s: %s: too many paths' % (what, r.name))
                    continue
                C.instance('guard', '%s: %s' % (what, r.name))
                kinds = ['throw'] if kind == 'any' else kind.split('|')

                def fail(o):
                    rs = [failed(x, o, kk) for x in kinds]
                    return True if True in rs else None if None in rs else False
                at = None
                for o in outs:
                    for path, l, g, e in o[2]:
                        at = at or core.loc(g or f, {'l': l})
                        C.bad('guard', '%s|%s|access|%s' % (f['q'], j, r.name), at, '%s reaches an element of %s at the position it was given when that is %s: %s' % (f['q'], path.replace('this.', ''), r.name, 'the check does not keep it below the extent of what is indexed (%s)' % e if not r.refuse else 'nothing refused it (extent %s)' % e))
                        break
                    if at:
                        break
                if at:
                    break
                if r.refuse and kind != 'any':
                    o = next((o for o in outs if fail(o) is False), None)
                    if o:
                        C.bad('guard', '%s|%s|accepts|%s' % (f['q'], j, r.name), where, '%s does not refuse position %s when it is %s of %s (a refusal is: %s)' % (f['q'], j, r.name, PI(F, r, [], []).show(n), kind))
                        break
                    o = next((o for o in outs if o[3]), None)
                    if o:
                        p, l, g = o[3][0]
                        C.bad('guard', '%s|%s|writes|%s' % (f['q'], j, r.name), core.loc(g or f, {'l': l}), '%s changes %s before it refuses a position which is %s' % (f['q'], p.replace('this.', ''), r.name))
                        break
                elif not r.refuse:
                    o = next((o for o in outs if o[0] == 'throw' and len(o) > 4 and o[4]), None)
                    if o and kind != 'any':
                        l, g, e = o[4]
                        C.bad('guard', '%s|%s|other' % (f['q'], j), core.loc(g or f, {'l': l}), '%s compares the position with %s and refuses by that, but positions run up to %s' % (f['q'], e.replace('this.', ''), PI(F, r, [], []).show(n).replace('this.', '')))
                        break
                    if outs and all(fail(o) is True for o in outs):
                        C.bad('guard', '%s|%s|refuses|%s' % (f['q'], j, r.name), where, '%s refuses a valid position (%s of %s)' % (f['q'], r.name, PI(F, r, [], []).show(n)))
                        break
        return seen

    def ranges(self):
        """view(first, end): refused unless first <= end <= extent (an empty range is a range)"""
        C, F = self.C, self.F
        inf = float('inf')
        for f in F.funcs.values():
            if f.get('fn') != 'view' or f.get('csn') not in ('brille::Array2', 'brille::Array') or f.get('dep') or f.get('body') is None or len(f.get('params') or []) != 2 or not all(INT.match(p['t']) for p in f['params']):
                continue
            n = self.extent(f, f['csn'], f.get('cls'), 'size(0)')
            if n is None:
                continue
            s = next(iter(n.t))
            A, B = {'k0': 1, s: -1}, {'k1': 1, s: -1}
            D = {'k0': 1, 'k1': -1}
            R = [Region('a range up to the end', [(A, -inf, -1), (B, 0, 0), (D, -inf, -1), ({s: 1}, 1, inf)], False),
                 Region('a range inside', [(A, -inf, -2), (B, -inf, -1), (D, -inf, -1), ({s: 1}, 2, inf)], False),
                 Region('ending one past the end', [(A, -inf, -1), (B, 1, 1), (D, -inf, -2), ({s: 1}, 1, inf)], True),
                 Region('ending far past the end', [(A, -inf, -1), (B, 2, inf), (D, -inf, -2), ({s: 1}, 1, inf)], True),
                 Region('starting at the end', [(A, 0, 0), (B, 1, inf), (D, -inf, -1), ({s: 1}, 1, inf)], True),
                 Region('reversed', [(A, -inf, -1), (B, -inf, -1), (D, 1, inf), ({s: 1}, 1, inf)], True)]
            for r in R:
                try:
                    outs = explore(F, f, r, [], [Aff({'k0': 1}), Aff({'k1': 1})])
                except Big:
                    C.undecided('guard', '%s: %s' % (f['q'], r.name))
                    continue
                C.instance('guard', '%s(first, end): %s' % (f['q'], r.name))
                where = loc(f)
                if r.refuse and not all(o[0] == 'throw' for o in outs):
                    C.bad('guard', '%s|range|%s' % (f['q'], r.name), where, '%s does not refuse a range %s' % (f['q'], r.name))
                    break
                if not r.refuse and all(o[0] == 'throw' for o in outs):
                    C.bad('guard', '%s|range|%s' % (f['q'], r.name), where, '%s refuses %s' % (f['q'], r.name))
                    break

    def run(self):
        self.done = set()
        self.ranges()
        for e in E:
            if not self.entry(*e):
                self.C.undecided('guard', '%s::%s (%s): no such function' % e[:3])


def run(tier):
    C = Check('P07', tier, 'Abstract interpretation of every checked entry point with the position and all extents symbolic: positions at or past the extent (and negative ones) end in the documented refusal before storage is reached or changed; positions below it are not refused, and every element reached is within the extent of the very container indexed.')
    C.assumptions += ['an assert counts as a refusal', 'arithmetic on positions does not wrap']
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp', 'd_guard.cpp'] + core.all_units())
    P07(C, F).run()
    C.floor('guard', 40)
    return C.finish()
