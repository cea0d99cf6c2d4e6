"""P13 everything written to a file is read back into the same place.

Provenance dataflow over every to_hdf / from_hdf pair.  The writer is summarised as a set of entries (name, kind, where the stored
value comes from); the reader as the members of the object it returns and the entries each came from.  The two are composed: following
a member of the returned object back through the entry it was read from must lead to the same member of the object that was written.
Nothing is executed: file operations are entries of a table, values are sets of access paths."""
import re
import core
from core import Check, loc, walk, strip_t

SIZE = re.compile(r'^(const )?(unsigned|int|size_t|std::size_t|unsigned (int|long)|long|ind_t)( const)?( &)?$')
PASS = {'move', 'forward', 'cref', 'ref', 'get', 'c_str', 'data', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'at', 'value', 'make_shared', 'operator*', 'as_const', 'rbegin', 'rend'}
APPEND = {'push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'assign', 'insert_or_assign', 'try_emplace', 'push', 'append'}


class Skip(Exception):
    pass


class V:
    """tokens: {(root, path): direct?}; parts: {name: V}; h: handle; s: string; n: constant"""
    __slots__ = ('t', 'parts', 'h', 's', 'n', 'rd', 'ty')

    def __init__(self, t=None, parts=None, h=None, s=None, n=None):
        self.t = dict(t or {})
        self.parts = dict(parts or {})
        self.h, self.s, self.n = h, s, n
        self.rd = None

    def copy(self):
        return V(self.t, {k: v.copy() for k, v in self.parts.items()}, self.h, self.s, self.n)

    def all(self):
        o = dict(self.t)
        for p in self.parts.values():
            for k, d in p.all().items():
                o[k] = o.get(k, False) or d
        return o

    def derived(self):
        return V({k: False for k in self.all()})

    def join(self, o):
        t = dict(self.t)
        for k, d in o.t.items():
            t[k] = t.get(k, False) or d
        ps = {k: v for k, v in self.parts.items()}
        for k, v in o.parts.items():
            ps[k] = ps[k].join(v) if k in ps else v
        return V(t, ps, self.h or o.h, self.s if self.s == o.s else (self.s or o.s), self.n if self.n == o.n else None)

    def part(self, name):
        name = {'first': '0', 'second': '1'}.get(name, name)
        p = V({(r, path + (name,)): d for (r, path), d in self.t.items()})
        if name in self.parts:
            p = p.join(self.parts[name])
        elif '*' in self.parts and name.isdigit():
            p = p.join(self.parts['*'])
        return p

    def elem(self):
        """an element at an unknown position"""
        p = V(self.t)
        p.s = self.s if self.s == '<by name>' else None
        nums = [v for k, v in self.parts.items() if k.isdigit()]
        if nums and len(nums) == len(self.parts):
            for v in nums:
                p = p.join(v)
        else:
            p = p.join(V({}, self.parts))
        return p


class Flow:
    def __init__(self, P, f, this=None):
        self.P, self.F, self.f = P, P.F, f
        self.writes, self.reads = [], []
        self.unlinked = set()
        self.byname, self.ordered = [], False
        self.conds = []
        self.loops = []
        self.sel = []
        self.order = 0

    # ---- entry points
    def frame(self, f, args, this, depth):
        env = {}
        for p, a in zip(f['params'], args):
            env[p['d']] = a
        return {'env': env, 'this': this, 'f': f, 'ret': None, 'depth': depth}

    def run(self, f, args, this, depth=0):
        if depth > 9:
            raise Skip('too deep')
        fr = self.frame(f, args, this, depth)
        self.st(f['body'], fr)
        return fr['ret'] if fr['ret'] is not None else V()

    def member(self, fr, name):
        t = fr['this']
        if t is None:
            return V({(name, ()): True})
        if name in t.parts:
            return t.parts[name]
        return t.part(name) if t.t else V()

    # ---- statements
    def st(self, s, fr):
        if s is None:
            return False
        k = s.get('k')
        if k == 'block':
            n = len(self.conds)
            for x in s['c']:
                r = self.st(x, fr)
                if r:
                    del self.conds[n:]
                    return r
            del self.conds[n:]
            return False
        if k == 'decl':
            for v in s['c']:
                if v.get('k') == 'var':
                    self.var(v, fr)
            return False
        if k == 'return':
            v = self.ev(s.get('e'), fr)
            fr['ret'] = v if fr['ret'] is None else fr['ret'].join(v)
            return True
        if k == 'if':
            if s.get('init'):
                self.st(s['init'], fr)
            if s.get('cvar'):
                self.st({'k': 'decl', 'c': [s['cvar']] if s['cvar'].get('k') == 'var' else s['cvar'].get('c', [])}, fr)
            c = self.ev(s['cond'], fr)
            env0 = dict(fr['env'])
            th0 = fr['this'].copy() if fr['this'] is not None else None
            self.conds.append((s['cond'], True, fr, c))
            a = self.st(s['then'], fr)
            self.conds.pop()
            env1, th1 = fr['env'], fr['this']
            fr['env'], fr['this'] = dict(env0), th0
            b = False
            if s.get('else'):
                self.conds.append((s['cond'], False, fr, c))
                b = self.st(s['else'], fr)
                self.conds.pop()
            if a == 'throw' and not b:
                return False
            if b == 'throw' and not a:
                fr['env'], fr['this'] = env1, th1
                return False
            if a and not b:
                self.conds.append((s['cond'], False, fr, c))      # dropped at the end of the block
                return False
            if b and not a:
                fr['env'], fr['this'] = env1, th1
                self.conds.append((s['cond'], True, fr, c))
                return False
            for d, v in env1.items():
                fr['env'][d] = v.join(fr['env'][d]) if d in fr['env'] else v
            if th1 is not None:
                fr['this'] = th1.join(fr['this'])
            return a and b
        if k in ('for', 'while', 'do', 'forrange'):
            return self.loop(s, fr)
        if k in ('throw', 'x:CXXThrowExpr'):
            return 'throw'
        if k == 'switch':
            v = self.ev(s.get('cond') or s.get('c'), fr)
            self.sel.append((v, None))
            self.switch(s['body'], fr)
            self.sel.pop()
            return False
        if k == 'case' and self.sel:
            c = s.get('val')
            while c is not None and c.get('k') in ('cast', 'paren', 'x:ConstantExpr') and 'e' in c:
                c = c['e']
            self.sel[-1] = (self.sel[-1][0], int(c['v']) if c is not None and c.get('k') == 'int' else None)
        if k == 'default' and self.sel:
            self.sel[-1] = (self.sel[-1][0], None)
        if k in ('case', 'default', 'omp'):
            return self.st(s.get('body'), fr)
        if k in ('break', 'continue', 'null'):
            return False
        if k == 'try':
            self.st(s.get('body'), fr)
            return False
        self.ev(s, fr)
        return False

    def switch(self, b, fr):
        for x in (b['c'] if b.get('k') == 'block' else [b]):
            env0 = {d: v for d, v in fr['env'].items()}
            th0 = fr['this'].copy() if fr['this'] is not None else None
            self.st(x, fr)
            for d, v in env0.items():
                fr['env'][d] = v.join(fr['env'][d])
            if th0 is not None:
                fr['this'] = th0.join(fr['this'])

    def var(self, v, fr):
        i = v.get('init')
        t = v.get('t', '')
        val = self.ev(i, fr) if i is not None else V()
        if i is not None and i.get('k') == 'ctor' and not i.get('copy') and len(i.get('args') or []) >= 1 and 'vector<' in t and SIZE.match(strip_t((i['args'][0].get('t') or ''))):
            val = V()                                  # a number of elements, not their values
        if v.get('bind'):
            b = v['bind']
            names = b if isinstance(b, list) else []
            for j, x in enumerate(names):
                if isinstance(x, dict) and 'd' in x:
                    fr['env'][x['d']] = val.part(str(j))
            fr['env'][v.get('d')] = val
            return
        fr['env'][v['d']] = val

    def modified(self, n):
        out = set()
        for x in walk(n):
            if x.get('k') == 'un' and x['op'] in ('++', '--') or x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                t = x.get('e') if x['k'] == 'un' else x['a']
                while t.get('k') in ('cast', 'paren'):
                    t = t['e']
                if t.get('k') == 'ref' and 'd' in t:
                    out.add(t['d'])
        return out

    def loop(self, s, fr):
        k = s['k']
        if k == 'for' and s.get('init'):
            self.st(s['init'], fr)
        mods = self.modified(s)
        info = {'mods': mods, 'start': {d: fr['env'][d].n for d in mods if d in fr['env']}, 'pass': 0, 'bound': None, 'range': None, 's': s, 'fr': fr}
        if k == 'forrange':
            info['range'] = self.ev(s.get('range') or s.get('beg'), fr)
        elif s.get('cond'):
            info['bound'] = s['cond']
        self.loops.append(info)
        for p in (0, 1):
            info['pass'] = p
            if p == 1:
                for d in mods:
                    if d in fr['env']:
                        fr['env'][d].n = None
            if k == 'forrange':
                v = dict(s['var'])
                el = info['range'].elem()
                if v.get('bind'):
                    for j, x in enumerate(v['bind'] if isinstance(v['bind'], list) else []):
                        if isinstance(x, dict) and 'd' in x:
                            fr['env'][x['d']] = el.part(str(j))
                    fr['env'][v.get('d')] = el
                else:
                    fr['env'][v['d']] = el
            else:
                if s.get('cond'):
                    self.ev(s['cond'], fr)
            self.st(s['body'], fr)
            if k == 'for' and s.get('inc'):
                self.ev(s['inc'], fr)
        self.loops.pop()
        for d in mods:
            if d in fr['env']:
                fr['env'][d].n = None
        return False

    # ---- expressions
    def ev(self, n, fr):
        if n is None:
            return V()
        m = getattr(self, 'e_' + n['k'].replace(':', '_'), None)
        if m:
            return m(n, fr)
        out = V()
        for key, v in n.items():
            if isinstance(v, dict) and 'k' in v:
                out = out.join(self.ev(v, fr).derived())
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        out = out.join(self.ev(x, fr).derived())
        return out

    def e_int(self, n, fr): return V(n=int(n['v']))
    def e_bool(self, n, fr): return V()
    def e_float(self, n, fr): return V()
    def e_str(self, n, fr): return V(s=n.get('s'))
    def e_zero(self, n, fr): return V(n=0)
    def e_sizeof(self, n, fr): return V()
    def e_paren(self, n, fr): return self.ev(n['e'], fr)

    def e_cast(self, n, fr):
        return self.ev(n['e'], fr)

    def e_this(self, n, fr):
        if fr['this'] is None:
            return V({('<this>', ()): True})
        return fr['this']

    def e_ref(self, n, fr):
        if 'd' in n and n['d'] in fr['env']:
            return fr['env'][n['d']]
        if n.get('dk') == 'binding' and n.get('e') is not None:
            return self.ev(n['e'], fr)
        if n.get('dk') == 'global':
            for g in (self.F.gvars.values() if isinstance(self.F.gvars, dict) else self.F.gvars):
                if g.get('q') == n.get('q') or g.get('n') == n.get('n'):
                    i = g.get('init')
                    if i is not None:
                        for x in walk(i):
                            if x.get('k') == 'str':
                                return V(s=x['s'])
            return V()
        return V()

    def e_mem(self, n, fr):
        e = n['e']
        while e.get('k') in ('cast', 'paren'):
            e = e['e']
        if e.get('k') == 'this':
            return self.member(fr, n['n'])
        return self.ev(e, fr).part(n['n'])

    def e_idx(self, n, fr):
        b = self.ev(n['e'] if 'e' in n else n['a'], fr)
        i = self.ev(n.get('i') or n.get('b'), fr)
        if i.n is not None and not self.loops:
            return b.part(str(i.n))
        c = n.get('i') or n.get('b')
        while c.get('k') in ('cast', 'paren'):
            c = c['e']
        return b.part(str(i.n)) if c.get('k') == 'int' else b.elem()

    def e_un(self, n, fr):
        if n['op'] in ('++', '--'):
            old = self.ev(n['e'], fr)
            t = n['e']
            while t.get('k') in ('cast', 'paren'):
                t = t['e']
            new = V(n=None if old.n is None else old.n + (1 if n['op'] == '++' else -1))
            if t.get('k') == 'ref' and 'd' in t:
                fr['env'][t['d']] = new
            return V(n=old.n) if n.get('post') else V(n=new.n)
        v = self.ev(n['e'], fr)
        return v if n['op'] in ('*', '&', '+') else v.derived()

    def e_cond(self, n, fr):
        c = self.ev(n['c'], fr)
        a, b = self.ev(n['a'], fr), self.ev(n['b'], fr)
        if a.n is not None and b.n is not None and not a.t and not b.t:
            x = self.code(n['c'], c)
            if x is not None:
                tok, (yes, no) = x
                return V({tok: True}).coded((a.n if yes else b.n, a.n if no else b.n)) if False else self.coded(tok, (a.n, b.n) if yes else (b.n, a.n))
            return c.derived()
        return a.join(b).join(V())

    # a flag stored as a number: path element ('=', value for true, value for false)
    def code(self, n, v):
        while n.get('k') in ('cast', 'paren'):
            n = n['e']
        pol = True
        while n.get('k') == 'un' and n['op'] == '!':
            pol = not pol
            n = n['e']
            while n.get('k') in ('cast', 'paren'):
                n = n['e']
        if len(v.t) == 1 and not v.parts or n.get('k') == 'un':
            ks = list(v.all())
            if len(ks) == 1 and n.get('k') in ('mem', 'ref', 'un'):
                return ks[0], (pol, not pol)
        return None

    def coded(self, tok, pair):
        r, path = tok
        return V({(r, path + ('=%d/%d' % pair,)): True})

    def e_bin(self, n, fr):
        op = n['op']
        if op == '=':
            v = self.ev(n['b'], fr)
            if self.sel and v.n is not None and v.n == self.sel[-1][1] and not v.all():
                v = self.sel[-1][0]                    # the number selected by is the number assigned
            self.store(n['a'], v, fr)
            return v
        if op == ',':
            self.ev(n['a'], fr)
            return self.ev(n['b'], fr)
        a, b = self.ev(n['a'], fr), self.ev(n['b'], fr)
        if op in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
            self.store(n['a'], a.join(b).derived(), fr)
            return V()
        if op in ('>', '<', '!=', '==', '>=', '<=') and (not a.t and not a.parts and a.n is not None or not b.t and not b.parts and b.n is not None):
            x, c, o = (a, b.n, op) if b.n is not None and not b.t else (b, a.n, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op))
            ks = list(x.all().items())
            if len(ks) == 1 and ks[0][1] and c is not None:
                r, path = ks[0][0]
                return V({(r, path + ('?%s%d' % (o, c),)): True})
        if op == '+' and (a.s is not None or b.s is not None):
            return V(s=(a.s or '?') + (b.s or '?'))
        r = a.join(b).derived()
        if a.n is not None and b.n is not None and op in '+-*':
            r.n = {'+': a.n + b.n, '-': a.n - b.n, '*': a.n * b.n}[op]
        else:
            r.n = None
        return r

    def store(self, t, v, fr):
        while t.get('k') in ('cast', 'paren'):
            t = t['e']
        k = t.get('k')
        if k == 'ref' and 'd' in t:
            fr['env'][t['d']] = v
        elif k == 'mem':
            e = t['e']
            while e.get('k') in ('cast', 'paren'):
                e = e['e']
            if e.get('k') == 'this':
                if fr['this'] is None:
                    fr['this'] = V()
                fr['this'].parts[t['n']] = v
            else:
                b = self.ev(e, fr)
                nb = b.copy()
                nb.parts[t['n']] = v
                self.store(e, nb, fr)
        elif k == 'idx' or k == 'call' and t.get('opr') == '[]':
            base = t['e'] if 'e' in t else t.get('a') if k == 'idx' else t['args'][0]
            i = t.get('i') or t.get('b') if k == 'idx' else t['args'][1]
            iv = self.ev(i, fr)
            c = i
            while c.get('k') in ('cast', 'paren'):
                c = c['e']
            b = self.ev(base, fr)
            if c.get('k') == 'int':
                nb = b.copy()
                nb.parts[str(iv.n)] = v
                self.store(base, nb, fr)
            else:
                self.store(base, b.join(v), fr)
        elif k == 'un' and t['op'] == '*':
            e = t['e']
            while e.get('k') in ('cast', 'paren'):
                e = e['e']
            if e.get('k') == 'this':
                fr['this'] = v
            else:
                self.store(e, v, fr)
        elif k == 'call' and t.get('fn') == 'tie':
            for j, a in enumerate(t['args']):
                self.store(a, v.part(str(j)), fr)
        elif k == 'call' and t.get('obj') is not None and self.P.returns_this(t):
            self.store(t['obj'], v, fr)
        elif k == 'call' and t.get('obj') is not None and t.get('fn') in ('at', 'front', 'back'):
            self.store(t['obj'], self.ev(t['obj'], fr).join(v), fr)

    def e_init(self, n, fr):
        c = n.get('c') or []
        if len(c) == 1:
            return self.wrap(n, self.ev(c[0], fr), fr)
        t = strip_t(n.get('t') or '')
        r = self.P.recs.get(t)
        names = [x['n'] for x in r['fields']] if r and len(r['fields']) >= len(c) else [str(i) for i in range(len(c))]
        return V({}, {nm: self.ev(x, fr) for nm, x in zip(names, c)})

    def wrap(self, n, v, fr):
        t = strip_t(n.get('t') or '')
        if 'std::array<' in t or t.endswith(']') or 'initializer_list' in t or 'vector<' in t:
            inner = n['c'][0]
            if inner.get('k') == 'init':
                return v
            return V({}, {'0': v}) if not ('array<' in strip_t(inner.get('t') or '')) else v
        return v

    def e_new(self, n, fr): return V()
    def e_lambda(self, n, fr):
        v = V()
        v.rd = (n, fr)
        return v
    def e_throw(self, n, fr): return V()

    def e_ctor(self, n, fr):
        args = n.get('args') or []
        t = strip_t(n.get('t') or n.get('cls') or '')
        if t.startswith('std::basic_string'):
            return self.ev(args[0], fr) if args else V(s='')
        vs = [self.ev(a, fr) for a in args]
        if t.startswith('HighFive::'):
            if t == 'HighFive::File':
                return V(h=(('<file>',), 'file', vs[0] if vs else None))
            return vs[0] if vs else V()
        if not args:
            g = self.F.funcs.get(n.get('f'))
            if g is not None and g.get('body') is not None and t.startswith('brille') and g.get('inits'):
                return self.construct(g, [], fr['depth'] + 1)
            return V()
        if len(args) == 1 and strip_t(args[0].get('t') or '') == t:
            return vs[0]
        if t.startswith('std::'):
            if t.startswith('std::vector') or t.startswith('std::deque'):
                if SIZE.match(strip_t(args[0].get('t') or '')) and not n.get('ilist'):
                    return vs[1] if len(vs) > 1 else V()
            if t.startswith(('std::pair', 'std::tuple')) and len(vs) > 1:
                return V({}, {str(i): v for i, v in enumerate(vs)})
            out = V()
            for v in vs:
                out = out.join(v)
            return out
        g = self.F.funcs.get(n.get('f'))
        if g is not None and (g.get('inits') or g.get('body')) and not g.get('copy') and not g.get('move'):
            return self.construct(g, vs, fr['depth'] + 1)
        out = V()
        for v in vs:
            out = out.join(v)
        return out

    def construct(self, g, vs, depth):
        if depth > 9:
            raise Skip('too deep')
        fr = self.frame(g, vs, V(), depth)
        for i in g.get('inits') or []:
            v = self.ev(i.get('e'), fr)
            if i.get('deleg'):
                fr['this'] = fr['this'].join(v)
            elif i.get('base'):
                fr['this'].parts['<base>'] = v
            else:
                if i.get('e') is not None and i['e'].get('k') == 'ctor' and len(i['e'].get('args') or []) >= 1 and 'vector<' in (i['e'].get('t') or '') and SIZE.match(strip_t((i['e']['args'][0].get('t') or ''))):
                    v = v if len(i['e']['args']) > 1 else V()
                fr['this'].parts[i['field']] = v
        if g.get('body') is not None:
            self.st(g['body'], fr)
        return fr['this']

    def bound(self, l):
        c = l['bound']
        while c.get('k') in ('cast', 'paren'):
            c = c['e']
        if c.get('k') != 'bin' or c['op'] not in ('<', '<=', '!='):
            return None
        return c['op'], self.ev(c['b'], l['fr'])

    def convert(self, cls, args, vs, fr):
        """an element made from the given values by the element type's own constructor"""
        m = re.match(r'^std::\w+<(brille::[\w:]+(<.*>)?)>$', cls)
        if not m or len(vs) == 1 and strip_t(args[0].get('t') or '').startswith(m.group(1).split('<')[0]):
            return vs[0] if len(vs) == 1 else None
        for g in self.F.funcs.values():
            if 'inits' in g and not g.get('dep') and (g.get('csn') == m.group(1) or g.get('cls') == m.group(1)) and len(g['params']) == len(vs) and not g.get('copy') and not g.get('move'):
                return self.construct(g, vs, fr['depth'] + 1)
        return vs[0] if len(vs) == 1 else None

    def path(self, v, key):
        if v.h is None:
            raise Skip('a file object of unknown origin')
        if key.s is None:
            raise Skip('the name of an entry is not a constant')
        if key.s == '<by name>':
            if self.ordered:
                raise Skip('entries are put in an order of their own')
            self.byname.append(v.h[0])
            return v.h[0] + ('<0..>',)
        return v.h[0] + (key.s,)

    def e_call(self, n, fr):
        fn = n.get('fn')
        q = n.get('q') or ''
        args = n.get('args') or []
        o = n.get('obj')
        cls = n.get('cls') or ''
        if fn in ('sort', 'stable_sort', 'stoi', 'stoul', 'stol', 'stoull', 'strtol', 'strtoul', 'from_chars'):
            self.ordered = True
        if cls.startswith('HighFive::') or q.startswith('HighFive::'):
            return self.hf(n, fn, o, args, fr)
        if fn in ('to_hdf', 'from_hdf'):
            vs = [self.ev(a, fr) for a in args]
            C = re.sub(r'::(to|from)_hdf(<.*)?$', '', q)
            if not vs or vs[0].h is None:
                if vs and vs[0].s is not None or len(vs) >= 2 and vs[0].h is None:
                    raise Skip('the file given to %s is not known' % fn)
            p = self.path(vs[0], vs[1])
            if fn == 'to_hdf':
                b = o
                cast = False
                while b is not None and b.get('k') in ('cast', 'paren'):
                    cast = True
                    b = b['e']
                if b is None or b.get('k') == 'this':
                    own = re.sub(r'::to_hdf(<.*)?$', '', self.f['q'])
                    v = V({('<base>' if C != own else '<this>', ()): True})
                else:
                    v = self.ev(o, fr)
                self.write(p, 'object ' + self.P.canon(C), v, n, fr)
                return V()
            return self.read(p, 'object ' + self.P.canon(C), n, fr)
        if fn == 'to_string' and len(args) == 1:
            v = self.ev(args[0], fr)
            if self.loops and v.n is not None and self.loops[-1]['pass'] == 0:
                return V(s='<%d..>' % v.n)
            if v.n is not None and not self.loops:
                return V(s=str(v.n))
            if self.loops and self.loops[-1]['pass'] == 1:
                return V(s='<later>')
            return V()
        if n.get('opr') == '=' and len(args) == 2:
            v = self.ev(args[1], fr)
            self.store(args[0], v, fr)
            return v
        if n.get('opr') == '[]' or fn == 'at' and o is not None:
            b = self.ev(args[0] if n.get('opr') == '[]' else o, fr)
            i = args[1] if n.get('opr') == '[]' else args[0]
            iv = self.ev(i, fr)
            c = i
            while c.get('k') in ('cast', 'paren'):
                c = c['e']
            return b.part(str(iv.n)) if c.get('k') == 'int' else b.elem()
        if n.get('opr') in ('==', '!=', '<', '>', '<=', '>=', '!', '&&', '||'):
            out = V()
            for a in args:
                out = out.join(self.ev(a, fr).derived())
            return out
        if n.get('opr') == '()' and args:
            lv = self.ev(args[0], fr)
            if lv.rd is not None:
                ln, lf = lv.rd
                params, body = ln.get('params') or [], ln.get('body')
                g = self.F.funcs.get(n.get('f'))
                if ln.get('generic') and g is not None and g.get('body'):
                    params, body = g['params'], g['body']
                vs = [self.ev(a, fr) for a in args[1:]]
                f2 = {'env': lf['env'], 'this': lf['this'], 'f': lf['f'], 'ret': None, 'depth': fr['depth'] + 1}
                for p_, a in zip(params, vs):
                    f2['env'][p_['d']] = a
                self.st(body, f2)
                lf['this'] = f2['this']
                for p_, a in zip(params, args[1:]):
                    t = (p_.get('t') or '').rstrip()
                    if t.endswith('&') and not t.startswith('const '):
                        nv = f2['env'].get(p_['d'])
                        if nv is not None and nv.h is None and nv.rd is None and nv.s is None:
                            self.store(a, nv, fr)
                return f2['ret'] if f2['ret'] is not None else V()
        if n.get('opr') == '+' and len(args) == 2:
            a, b = self.ev(args[0], fr), self.ev(args[1], fr)
            if a.s is not None or b.s is not None:
                return V(s=(a.s or '?') + (b.s or '?'))
        if n.get('opr') in ('*', '->') and len(args) == 1:
            return self.ev(args[0], fr).elem()
        if fn in APPEND and o is not None:
            vs = [self.ev(a, fr) for a in args]
            if fn == 'emplace_back' and len(vs) == 1 or fn in ('push_back', 'push_front', 'push'):
                el = self.convert(cls, args, vs, fr)
            elif fn in ('emplace', 'emplace_back', 'try_emplace', 'insert_or_assign') and len(vs) > 1:
                el = (self.convert(cls, args, vs, fr) if fn == 'emplace_back' else None) or V({}, {str(i): v for i, v in enumerate(vs)})
            elif fn == 'insert' and len(vs) == 1:
                el = vs[0]
            else:
                el = V()
                for v in vs:
                    el = el.join(v)
            el = V(el.t, el.parts)
            el.n = None
            self.store(o, self.ev(o, fr).join(el), fr)
            return V()
        if fn in ('make_tuple', 'make_pair', 'tie', 'forward_as_tuple'):
            return V({}, {str(i): self.ev(a, fr) for i, a in enumerate(args)})
        if q.startswith('std::get') and len(args) == 1:
            m = re.search(r'get<(\d+)', q)
            v = self.ev(args[0], fr)
            return v.part(m.group(1)) if m else v
        if fn in ('copy', 'transform', 'copy_n', 'move') and q.startswith('std::') and len(args) >= 3:
            src = self.ev(args[0], fr)
            d = args[2]
            for x in walk(d):
                if x.get('k') == 'ref' and x.get('dk') == 'local' or x.get('k') == 'mem':
                    v = src if fn in ('copy', 'copy_n', 'move') else src.join(self.ev(args[-1], fr))
                    self.store(x, self.ev(x, fr).join(v), fr)
                    break
            return V()
        if fn in ('swap',) and len(args) == 2:
            a, b = self.ev(args[0], fr), self.ev(args[1], fr)
            self.store(args[0], b, fr)
            self.store(args[1], a, fr)
            return V()
        if fn in PASS and not (q.startswith('brille')):
            v = self.ev(o if o is not None else args[0], fr) if (o is not None or args) else V()
            return v
        if fn in ('reserve', 'resize', 'clear', 'shrink_to_fit'):
            return V()
        g = self.F.funcs.get(n.get('f'))
        if g is not None and g.get('body') and q.startswith('brille') and fr['depth'] < 7 and self.P.small(g):
            vs = [self.ev(a, fr) for a in args]
            th = None
            isthis = False
            if o is not None:
                b = o
                while b.get('k') in ('cast', 'paren'):
                    b = b['e']
                if b.get('k') == 'this':
                    isthis = True
                    th = fr['this']
                else:
                    th = self.ev(o, fr)
            f2 = self.frame(g, vs, th.copy() if th is not None and not isthis else th, fr['depth'] + 1)
            if o is None and not g.get('static') and g.get('cls') is None:
                f2['this'] = V()
            self.st(g['body'], f2)
            if isthis and not g.get('const'):
                fr['this'] = f2['this']
            elif o is not None and not isthis and not g.get('const') and f2['this'] is not th:
                self.store(o, f2['this'], fr)
            for p, a in zip(g['params'], args):
                t = p['t'].rstrip()
                if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                    nv = f2['env'].get(p['d'])
                    if nv is not None and nv.h is None:
                        self.store(a, nv, fr)
            r = f2['ret'] if f2['ret'] is not None else V()
            return r.copy() if r is f2['this'] and not isthis else r
        out = V()
        for a in ([o] if o is not None else []) + args:
            out = out.join(self.ev(a, fr).derived())
        out.s = None
        out.h = None
        out.n = None
        return out

    # ---- the file interface
    def hf(self, n, fn, o, args, fr):
        ov = self.ev(o, fr) if o is not None else V()
        vs = [self.ev(a, fr) for a in args]
        if fn in ('createGroup', 'getGroup'):
            p = self.path(ov, vs[0])
            if fn == 'createGroup':
                self.write(p, 'group', V(), n, fr)
            else:
                self.read(p, 'group', n, fr)
            return V(h=(p, 'group'))
        if fn == 'createDataSet':
            p = self.path(ov, vs[0])
            self.write(p, 'dataset', vs[1], n, fr, n.get('pt', [None, None])[1])
            return V(h=(p, 'dataset'))
        if fn == 'createAttribute':
            p = self.path(ov, vs[0])
            self.write(p, 'attribute', vs[1], n, fr, n.get('pt', [None, None])[1], args[1])
            return V(h=(p, 'attribute'))
        if fn in ('getDataSet', 'getAttribute'):
            return V(h=(self.path(ov, vs[0]), 'dataset' if fn == 'getDataSet' else 'attribute'))
        if fn == 'read':
            if ov.h is None:
                raise Skip('reads from an unknown entry')
            v = self.read(ov.h[0], ov.h[1], n, fr, (n.get('pt') or [n.get('t')])[0])
            if args:
                self.store(args[0], v, fr)
                return V()
            return v
        if fn in ('write', 'write_raw'):
            if ov.h is None:
                raise Skip('writes to an unknown entry')
            self.write(ov.h[0], ov.h[1], vs[0], n, fr, (n.get('pt') or [None])[0])
            return V()
        if fn in ('exist', 'hasAttribute', 'getObjectType'):
            return V()
        if fn in ('listObjectNames', 'getObjectName'):
            return V(s='<by name>')
        if fn == 'unlink':
            self.unlinked.add(self.path(ov, vs[0]))
            return V()
        return V()

    def cond(self):
        out = []
        for c, pol, fr, v in self.conds:
            out.append((c, pol, v))
        return out

    def write(self, p, kind, v, n, fr, ty=None, expr=None):
        if '<later>' in ''.join(p):
            return
        rng = None
        for l in reversed(self.loops):
            if l['range'] is not None:
                rng = l['range']
                break
        self.writes.append({'p': p, 'kind': kind, 'v': v.copy(), 'l': n.get('l') or self.f['l'], 'ty': ty, 'cond': self.cond(), 'replaced': any(p[:i] in self.unlinked for i in range(1, len(p) + 1)), 'expr': expr, 'range': rng, 'loop': bool(self.loops)})

    def read(self, p, kind, n, fr, ty=None):
        self.reads.append({'p': p, 'kind': kind, 'l': n.get('l') or self.f['l'], 'ty': ty, 'cond': self.cond(), 'loops': [(l['bound'], self.bound(l)) for l in self.loops if l['bound'] is not None], 'later': '<later>' in ''.join(p)})
        if '<later>' in ''.join(p):
            return V()
        if kind == 'group':
            return V()
        return V({((p, kind), ()): True})


# members that say who frees the elements and whether they may be changed in place: not part of an array's value
STORAGE = {('Array2', '_own'), ('Array2', '_ref'), ('Array2', '_mutable'), ('Array', '_own'), ('Array', '_ref'), ('Array', '_mutable')}


class P13:
    def __init__(self, C, F):
        self.C, self.F = C, F
        self.recs = {}
        for (q, dep), r in F.records.items():
            if not dep:
                self.recs.setdefault(q, r)
        self.bigs = {}

    def returns_this(self, n):
        """a member function that returns a reference to its own object"""
        g = self.F.funcs.get(n.get('f'))
        if g is None or not g.get('body') or not (g.get('rt') or '').rstrip().endswith('&'):
            return False
        rs = [x for x in walk(g['body']) if x.get('k') == 'return']
        def star(e):
            while e.get('k') in ('cast', 'paren'):
                e = e['e']
            return e.get('k') == 'un' and e['op'] == '*' and e['e'].get('k') == 'this'
        return bool(rs) and all(star(r['e']) for r in rs)

    def small(self, g):
        k = g['f']
        if k not in self.bigs:
            self.bigs[k] = sum(1 for _ in walk(g['body'])) < 900
        return self.bigs[k]

    def canon(self, c):
        return c

    def fields(self, q):
        r = self.recs.get(q)
        out = []
        if r is None:
            return None
        for x in r['fields']:
            if x.get('n'):
                out.append(x)
        return out

    def pair(self, w, r):
        C = self.C
        cls = re.sub(r'::to_hdf(<.*)?$', '', w['q'])
        name = short(cls)
        W, R = Flow(self, w), Flow(self, r)
        try:
            W.run(w, [V(h=((), 'group')), V(s='@')], None)
            out = R.run(r, [V(h=((), 'group')), V(s='@')], V())
        except Skip as e:
            C.undecided('members come back from the entry they were stored in', '%s: %s' % (name, e))
            return
        C.instance('classes with a writer and a reader', cls)
        for p in R.byname:
            for e in W.writes:
                if len(e['p']) > len(p) and e['p'][:len(p)] == p and e['p'][len(p)].startswith('<'):
                    C.bad('numbered entries are read in the order of their numbers', '%s %s' % (name, '/'.join(p[1:]) or '@'), loc(r), '%s takes the entries of %s in the order in which the file lists their names, which is not the order of their numbers (10 comes before 2)' % (cls, '/'.join(x for x in p if x != '@') or 'the group'))
                    break
        names = {}
        for e in W.writes:
            names.setdefault((e['p'], e['kind']), []).append(e)

        def say(p):
            return '/'.join(x for x in p if x != '@') or 'the entry itself'
        # every entry that is read is written, under the same name and in the same kind of container
        for x in R.reads:
            if x['later']:
                continue
            got = names.get((x['p'], x['kind']))
            ks = [k for (p, k) in names if p == x['p']]
            key = '%s %s' % (name, say(x['p']))
            if got is None:
                C.bad('entries read are entries written', key, '%s:%s' % (core.rel(r['file']), x['l']), '%s reads %s %s, %s' % (cls, x['kind'], say(x['p']), 'which is written as ' + ks[0] if ks else 'which is never written'))
                continue
            C.instance('entries read are entries written', key + ' ' + x['kind'])
            self.kinds(name, cls, got, x, r, say)
            self.guard(name, cls, got, x, r, say, names)
            self.count(name, cls, got, x, r, say, names)
        # replaced, not duplicated
        for e in W.writes:
            if e['kind'] in ('group', 'dataset') and len(e['p']) == 1:
                if e['replaced']:
                    C.instance('an entry already present is replaced', name)
                else:
                    C.bad('an entry already present is replaced', name, '%s:%s' % (core.rel(w['file']), e['l']), '%s creates its %s without removing one of that name' % (cls, e['kind']))
            if e['loop'] and not any(c in x for x in e['p'] for c in '<') and e['kind'] in ('dataset', 'attribute') :
                pass
        # the same name is not used twice for different things
        for (p, k), es in names.items():
            ls = {e['l'] for e in es}
            if k in ('attribute', 'dataset') or k.startswith('object'):
                srcs = {frozenset(e['v'].all()) for e in es}
                if len(srcs) > 1 and len(ls) > 1 and not any(e['cond'] for e in es):
                    C.bad('one entry, one value', '%s %s' % (name, say(p)), '%s:%s' % (core.rel(w['file']), max(ls)), '%s stores two different things in %s' % (cls, say(p)))
                else:
                    C.instance('one entry, one value', '%s %s' % (name, say(p)))
        # composition
        fs = self.fields(cls)
        if fs is None:
            C.undecided('members come back from the entry they were stored in', name + ': no record')
            return
        written = set()
        for e in W.writes:
            for (m, path), d in e['v'].all().items():
                if d:
                    written.add(m)
        rec = self.recs.get(cls)
        todo = [x['n'] for x in fs] + (['<base>'] if rec.get('bases') and '<base>' in written else [])
        rule = 'members come back from the entry they were stored in'
        for m in todo:
            v = out.parts.get(m)
            if v is None and out.t:
                v = out.part(m) if m in out.parts else None
            ty = next((x['t'] for x in fs if x['n'] == m), '')
            key = '%s %s' % (name, m)
            if 'mutex' in ty:
                continue
            leaves = self.leaves(v, ()) if v is not None else []
            if not leaves:
                if (name, m) in STORAGE:
                    C.instance(rule, key + ' (storage management)'); continue
                if m in written:
                    C.bad(rule, key, loc(r), '%s stores %s but what it reads back gives it no stored value' % (cls, m))
                elif m in self.used(w):
                    C.instance(rule, key + ' (its effect is in the stored values)')
                elif self.transient(ty) or v is not None and self.constant(cls, m):
                    C.undecided(rule, key + ' is neither stored nor restored')
                else:
                    C.bad(rule, key, loc(r), 'the member %s of %s is neither stored in the file nor computed from what is' % (m, cls))
                continue
            ok, anydirect = True, False
            if m not in written:
                C.instance(rule, key + ' (computed)'); continue
            good = set()
            for path, tok, direct in leaves:
                if direct and isinstance(tok[0], tuple) and tok[0] and isinstance(tok[0][0], tuple):
                    for (sm, sp), sd in self.follow(names, tok) or []:
                        full, want, g = self.flags((sm,) + sp, (m,) + path)
                        n = min(len(full), len(want))
                        if sd and g and full[:n] == want[:n]:
                            good.add(path)
            for path, tok, direct in leaves:
                if any(path[:len(g)] == g for g in good):
                    anydirect = True
                    continue
                if not (isinstance(tok[0], tuple) and tok[0] and isinstance(tok[0][0], tuple)):
                    continue
                src = self.follow(names, tok)
                if src is None:
                    continue                          # reported above
                if not direct:
                    continue
                for (sm, sp), sd in src:
                    if not sd:
                        continue
                    anydirect = True
                    full, want = (sm,) + sp, (m,) + path
                    full, want, good = self.flags(full, want)
                    n = min(len(full), len(want))
                    if not good:
                        ok = False
                        C.bad(rule, key, loc(r), '%s reads %s with the opposite meaning it was stored with in %s' % (cls, m, say(tok[0][0])))
                        break
                    if full[:n] != want[:n]:
                        ok = False
                        C.bad(rule, key, loc(r), '%s fills %s from %s, which holds %s' % (cls, '.'.join(want), say(tok[0][0]), '.'.join(full)))
                        break
                if not ok:
                    break
            if ok:
                C.instance(rule, key + (' (same value)' if anydirect else ' (computed)'))

    def used(self, w):
        """members the writer reads, itself or through methods of the object"""
        out, seen, todo = set(), set(), [w]
        while todo:
            f = todo.pop()
            if f['f'] in seen or not f.get('body'):
                continue
            seen.add(f['f'])
            for x in walk(f['body']):
                if x.get('k') == 'mem':
                    e = x['e']
                    while e.get('k') in ('cast', 'paren'):
                        e = e['e']
                    if e.get('k') == 'this':
                        out.add(x['n'])
                if x.get('k') == 'call' and x.get('obj') is not None and x.get('fn') != 'to_hdf':
                    e = x['obj']
                    while e.get('k') in ('cast', 'paren'):
                        e = e['e']
                    g = self.F.funcs.get(x.get('f'))
                    if e.get('k') == 'this' and g:
                        todo.append(g)
        return out

    def transient(self, ty):
        return 'std::function' in ty or 'mutex' in ty

    def constant(self, cls, m):
        return False

    def leaves(self, v, path):
        out = [(path + p, (r, ()), d) if False else (path, (r, p), d) for (r, p), d in v.t.items()]
        for k, x in v.parts.items():
            out += self.leaves(x, path + (k,))
        return out

    def follow(self, names, tok):
        root, path = tok
        es = names.get(root)
        if not es:
            return None
        out = []
        for e in es:
            v = e['v']
            rest = list(path)
            while rest:
                k = rest[0]
                if k in v.parts:
                    nv = v.parts[k]
                    nv = nv.join(V({(r, p + (k,)): d for (r, p), d in v.t.items()})) if v.t else nv
                    v = nv
                    rest.pop(0)
                else:
                    break
            for (r, p), d in v.all().items():
                out.append(((r, p + tuple(rest)), d))
        return out

    def flags(self, full, want):
        """flags stored as numbers: the number for true must read as true and the one for false as false"""
        enc = [x for x in full if x[:1] == '=']
        dec = [x for x in full if x[:1] == '?']
        if enc and dec:
            a, b = [int(x) for x in enc[0][1:].split('/')]
            m = re.match(r'\?(>=|<=|==|!=|>|<)(-?\d+)', dec[0])
            op, c = m.group(1), int(m.group(2))
            ev = lambda x: {'>': x > c, '<': x < c, '==': x == c, '!=': x != c, '>=': x >= c, '<=': x <= c}[op]
            good = ev(a) and not ev(b)
        elif enc:
            a, b = [int(x) for x in enc[0][1:].split('/')]
            good = bool(a) and not b
        elif dec:
            m = re.match(r'\?(>=|<=|==|!=|>|<)(-?\d+)', dec[0])
            op, c = m.group(1), int(m.group(2))
            ev = lambda x: {'>': x > c, '<': x < c, '==': x == c, '!=': x != c, '>=': x >= c, '<=': x <= c}[op]
            good = ev(1) and not ev(0)
        else:
            good = True
        return tuple(x for x in full if x[:1] not in '=?'), want, good

    # ---- element types
    def scalar(self, t):
        t = strip_t(t or '')
        t = re.sub(r'\b(const|struct)\b', '', t).strip()
        t = t.rstrip('&* ').strip()
        while True:
            m = re.match(r'^std::(vector|array|list|deque|set)<(.*)>$', t)
            if not m:
                break
            d, s = 0, ''
            for ch in m.group(2):
                if ch == ',' and d == 0:
                    break
                d += ch in '<('
                d -= ch in '>)'
                s += ch
            t = s.strip()
        t = re.sub(r'\[\d*\]', '', t).strip()
        return t

    W = {'bool': ('i', 1), 'char': ('i', 1), 'unsigned char': ('i', 1), 'short': ('i', 2), 'unsigned short': ('i', 2), 'int': ('i', 4), 'unsigned int': ('i', 4), 'unsigned': ('i', 4), 'long': ('i', 8), 'unsigned long': ('i', 8), 'size_t': ('i', 8), 'float': ('f', 4), 'double': ('f', 8), 'long long': ('i', 8), 'unsigned long long': ('i', 8)}

    def kinds(self, name, cls, es, x, r, say):
        rule = 'values are read with the type they were written with'
        if x['ty'] is None or x['kind'].startswith(('object', 'group')):
            return
        b = self.scalar(x['ty'])
        for e in es:
            if e['ty'] is None:
                continue
            a = self.scalar(e['ty'])
            key = '%s %s' % (name, say(x['p']))
            A, B = self.W.get(a), self.W.get(b)
            if a == b:
                self.C.instance(rule, key)
            elif A and B:
                if A[0] == 'f' and B[0] == 'i' or A[0] == B[0] and A[1] > B[1]:
                    self.C.bad(rule, key, '%s:%s' % (core.rel(r['file']), x['l']), '%s stores %s as %s and reads it as %s' % (cls, say(x['p']), a, b))
                else:
                    self.C.instance(rule, key)
            elif a in ('std::vector', 'std::array', 'std::list') or b in ('std::vector', 'std::array'):
                self.C.undecided(rule, key + ' %s/%s' % (a, b))
            elif A or B or a.startswith('brille') and b.startswith('brille'):
                self.C.bad(rule, key, '%s:%s' % (core.rel(r['file']), x['l']), '%s stores %s as %s and reads it as %s' % (cls, say(x['p']), a, b))
            else:
                self.C.undecided(rule, key + ' %s/%s' % (a, b))

    # ---- numbered entries
    def count(self, name, cls, es, x, r, say, names):
        rule = 'as many numbered entries are read as were written'
        if not any('..>' in c for c in x['p']) or not x['loops']:
            return
        key = '%s %s' % (name, say(x['p']))
        b = x['loops'][-1][1]
        if b is None or es[0]['range'] is None:
            self.C.undecided(rule, key); return
        op, v = b
        rng = {t[0] for t in es[0]['range'].all()}
        toks = [(t, d) for t, d in v.all().items() if isinstance(t[0], tuple) and t[0] and isinstance(t[0][0], tuple)]
        src = {t2[0] for t, d in toks for t2, d2 in self.follow(names, t) or []}
        if len(toks) != 1 or not (src & rng):
            self.C.undecided(rule, key); return
        if op in ('<', '!=') and toks[0][1]:
            self.C.instance(rule, key)
        else:
            self.C.bad(rule, key, '%s:%s' % (core.rel(r['file']), x['l']), '%s reads a different number of entries %s than were stored' % (cls, say(x['p'])))

    def wrapper(self, f):
        """the overload that opens the file by name"""
        rule = 'the file is opened by its name and the entry kept'
        W = Flow(self, f)
        args = [V(s='<filename>'), V(s='@')] + [V() for p in f['params'][2:]]
        try:
            W.run(f, args, None if f['q'].split('<')[0].endswith('to_hdf') else V())
        except Skip as e:
            self.C.undecided(rule, '%s: %s' % (f['q'], e)); return
        what = f['q']
        got = W.writes + W.reads
        if not got:
            self.C.undecided(rule, what); return
        for e in got:
            if e['p'] == ('<file>', '@'):
                self.C.instance(rule, what)
            elif '<file>' in e['p'][0] or True:
                self.C.bad(rule, re.sub(r'<.*', '', short(re.sub(r'::\w+_hdf.*', '', f['q']))), loc(f), '%s uses the entry %s of the file instead of the one asked for' % (f['q'], '/'.join(e['p'])))

    # ---- loops that copy elements to or from the form that is stored
    def copies(self, f):
        rule = 'loops copy every position to the same position'
        import p19

        def peel(n):
            while n.get('k') in ('cast', 'paren'):
                n = n['e']
            return n

        def sub(n):
            if n.get('k') == 'idx':
                return n['e'] if 'e' in n else n['a'], n.get('i') or n.get('b')
            if n.get('k') == 'call' and n.get('opr') == '[]':
                return n['args'][0], n['args'][1]
            return None

        def go(n, outer):
            if isinstance(n, list):
                for x in n:
                    go(x, outer)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'for' and n.get('init') and n['init'].get('k') == 'decl' and n['init']['c'][0].get('k') == 'var':
                v = n['init']['c'][0]
                d = v['d']
                inside = {x['d'] for x in walk(n['body']) if x.get('k') == 'var' and 'd' in x} | {d}
                used = any(x.get('k') == 'ref' and x.get('d') == d or x.get('k') == 'un' and x['op'] in ('++', '--') or x.get('k') == 'call' and (x.get('opr') or '') in ('++', '--', '+=', '>>') or x.get('k') == 'call' and (x.get('fn') or '').startswith('pop') for x in walk(n['body']))
                key = '%s %s' % (short(re.sub(r'::\w+_hdf.*', '', f['q'])), v['n'])
                where = '%s:%s' % (core.rel(f['file']), n.get('l') or f['l'])
                bad = None
                if not used:
                    bad = 'the loop over %s in %s never uses %s' % (v['n'], f['q'], v['n'])
                for x in walk(n['body']):
                    s_ = sub(x)
                    if s_:
                        b, i = peel(s_[0]), peel(s_[1])
                        if i.get('k') == 'int' and b.get('k') == 'ref' and b.get('d') not in inside and b.get('dk') == 'local' and b['d'] not in outer:
                            bad = bad or '%s takes the fixed position %s of %s at every turn of a loop' % (f['q'], i['v'], b['n'])
                    if x.get('k') == 'bin' and x['op'] == '=' or x.get('k') == 'call' and x.get('opr') == '=':
                        l, r = (x['a'], x['b']) if x['k'] == 'bin' else x['args']
                        a, c = sub(peel(l)), sub(peel(r))
                        if a and c:
                            ha = any(y.get('k') == 'ref' and y.get('d') == d for y in walk(a[1]))
                            hc = any(y.get('k') == 'ref' and y.get('d') == d for y in walk(c[1]))
                            if ha and hc and p19.text(a[1]) != p19.text(c[1]):
                                bad = bad or '%s copies one position to another' % f['q']
                if bad:
                    self.C.bad(rule, key, where, bad)
                else:
                    self.C.instance(rule, f['q'] + ' ' + v['n'])
                go(n['body'], outer | inside)
                return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    go(v, outer)
        go(f['body'], set())

    # ---- records stored as a whole
    def compound(self):
        rule = 'record types describe the record'
        for f in sorted(self.F.funcs.values(), key=lambda f: f['f']):
            m = re.match(r'^HighFive::create_datatype<(brille::HF_\w+<.*>)>$', f['q'])
            if not m or not f.get('body'):
                continue
            r = self.recs.get(m.group(1))
            g, seen = f, 0
            while g is not None and seen < 4:
                defs = [x for x in walk(g['body']) if x.get('k') == 'ctor' and (x.get('cls') or '').endswith('member_def')]
                if defs:
                    break
                nxt = [x for x in walk(g['body']) if x.get('k') == 'call' and 'create_compound' in (x.get('q') or '')]
                g = self.F.funcs.get(nxt[0].get('f')) if nxt else None
                seen += 1
            if r is None or g is None or not defs:
                self.C.undecided(rule, f['q']); continue
            got = []
            for d in defs:
                nm = next((x['s'] for x in walk(d['args'][0]) if x.get('k') == 'str'), None)
                ty = next((re.search(r'AtomicType<(.*)>$', x['cls']).group(1) for x in walk(d['args'][1]) if x.get('k') == 'ctor' and 'AtomicType<' in (x.get('cls') or '')), None)
                got.append((nm, ty))
            want = [(x['n'], x['t']) for x in r['fields']]
            if [t for n, t in got] == [t for n, t in want] and len({n for n, t in got}) == len(got):
                self.C.instance(rule, m.group(1))
            else:
                self.C.bad(rule, short(m.group(1)), loc(g), 'the stored layout of %s has %s where the record has %s' % (m.group(1), ' '.join('%s:%s' % x for x in got), ' '.join('%s:%s' % x for x in want)))

    # ---- conditional entries
    def truth(self, c, pol, v):
        """the condition as (what is tested, sense): `!x`, `x != 0`, `x == 0`, `x > 0`, `0 < x`, `x.empty()`"""
        def bare(z):
            while z.get('k') in ('cast', 'paren'):
                z = z['e']
            return z
        while True:
            c = bare(c)
            if c.get('k') == 'un' and c['op'] == '!':
                c, pol = c['e'], not pol
            elif c.get('k') == 'bin' and c['op'] in ('>', '!=', '==', '<') and any(bare(c[s]).get('k') in ('int', 'zero', 'bool') for s in 'ab'):
                s = 'b' if bare(c['b']).get('k') in ('int', 'zero', 'bool') else 'a'
                z, op = bare(c[s]), c['op']
                if op in ('<', '>') and (op == '>') != (s == 'b') or op in ('<', '>') and z.get('k') == 'bool':
                    return c, pol
                zv = int(z.get('v') or 0)
                if z.get('k') != 'bool' and zv != 0:
                    return c, pol
                if (op == '==') == (zv == 0):
                    pol = not pol
                c = c['a' if s == 'b' else 'b']
            elif c.get('k') == 'call' and c.get('fn') == 'empty' and not c.get('args'):
                return c, not pol
            else:
                return c, pol

    def guard(self, name, cls, es, x, r, say, names):
        rule = 'an entry is read only where it was written'
        key = '%s %s' % (name, say(x['p']))
        filetest = lambda cs: any(any(y.get('fn') in ('exist', 'hasAttribute', 'getObjectType') for y in walk(c)) or any(y.get('k') == 'ref' and 'HighFive' in (y.get('t') or '') for y in walk(c)) for c, p, v in cs)
        for e in es:
            wc = [c for c in e['cond'] if c[2].all() or c[2].t]
            if not wc:
                self.C.instance(rule, key)
                continue
            rc = x['cond']
            if filetest(rc):
                self.C.instance(rule, key)
                continue
            rc = [c for c in rc if c[2].all()]
            if not rc:
                self.C.bad(rule, key, '%s:%s' % (core.rel(r['file']), x['l']), '%s reads %s always although it is stored only on a condition' % (cls, say(x['p'])))
                continue
            if len(wc) != 1 or len(rc) != 1:
                self.C.undecided(rule, key)
                continue
            wn, wp = self.truth(*wc[0])
            rn, rp = self.truth(*rc[0])
            if wn.get('k') not in ('mem', 'call', 'ref') or rn.get('k') not in ('ref', 'mem'):
                self.C.undecided(rule, key)
                continue
            src = set()
            for tok in rc[0][2].all():
                f = self.follow(names, tok) if isinstance(tok[0], tuple) else None
                for t, d in f or []:
                    src.add(t[0])
            ws = {t[0] for t in wc[0][2].all()}
            if not (src & ws):
                self.C.undecided(rule, key)
            elif wp != rp:
                self.C.bad(rule, key, '%s:%s' % (core.rel(r['file']), x['l']), '%s reads %s under the opposite condition to the one it is stored under' % (cls, say(x['p'])))
            else:
                self.C.instance(rule, key)


def short(q):
    d, o = 0, ''
    for c in q:
        d += c == '<'
        if not d: o += c
        d -= c == '>'
    return o.split('::')[-1]


def run(tier):
    C = Check('P13', tier, 'Provenance dataflow over every writer/reader pair: the writer is summarised as entries (name, kind, element type, source member), the reader as members of the returned object and the entry each is taken from; the composition must lead every member back to itself, each entry read must be written under that name and in that kind of container with that element type and on that condition, an entry already there is removed first, and a member without a stored value is a violation.')
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    P = P13(C, F)
    ws, rs = {}, {}
    for f in sorted(F.funcs.values(), key=lambda f: f['f']):
        if f.get('dep') or not f.get('body') or f.get('file', '').startswith('/verif'):
            continue
        m = re.match(r'^(.*)::(to|from)_hdf(<.*)?$', f['q'])
        if m and f['params'] and 'basic_string' in f['params'][0]['t'] and len(f['params']) >= 2 and m.group(1) != 'brille':
            P.wrapper(f)
            continue
        if not m or len(f['params']) != 2 or 'HighFive' not in f['params'][0]['t']:
            continue
        (ws if m.group(2) == 'to' else rs).setdefault(m.group(1), f)
    for f in sorted(F.funcs.values(), key=lambda f: f['f']):
        if not f.get('dep') and f.get('body') and re.search(r'(^|::|_)(to|from)_hdf(<.*)?$', f['q']) and not f.get('file', '').startswith('/verif'):
            P.copies(f)
    for c in sorted(set(ws) | set(rs)):
        if c in ws and c in rs:
            P.pair(ws[c], rs[c])
        else:
            C.undecided('classes with a writer and a reader', c)
    P.compound()
    C.floor('entries read are entries written', 10)
    return C.finish()
