"""P19 definite initialisation.

Path-sensitive definite-assignment analysis.  Constructors: on every path that ends normally each scalar member (numbers, flags, raw
pointers, enumerations, and arrays or member structs made of them) has been given a value, and no member is read before that.
Functions: no local scalar is read or returned on a path on which it was not assigned.  Branch conditions are remembered, so two tests
of the same condition are correlated; loops are followed for zero and for one pass."""
import json
import re
import core
from core import Check, loc, walk, strip_t

SCALAR = re.compile(r'^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|unsigned|signed|size_t|std::size_t|ind_t|long int|unsigned int|unsigned long|unsigned char|unsigned short|unsigned long long|long double|int64_t|uint64_t)( const)?$')
PARTS = ('std::array<',)


class P19:
    def __init__(self, C, F):
        self.C, self.F = C, F
        self.enums = {e['q'] for e in (F.enums.values() if isinstance(F.enums, dict) else F.enums)}
        self.recs = {}
        for (q, dep), r in F.records.items():
            self.recs.setdefault(q, r)
        self.ctors = {}
        for f in F.funcs.values():
            if 'inits' in f:
                self.ctors.setdefault(f.get('csn') or f['q'].rsplit('::', 1)[0], []).append(f)
        self.memo = {}
        self.reads = ()

    # ---- types
    def isscalar(self, t):
        t = t.strip()
        if t.endswith('&'):
            return False
        t0 = t
        t = re.sub(r'\bconst\b|\bvolatile\b', '', t).strip()
        t = re.sub(r'\s+', ' ', t)
        if t.endswith('*'):
            return True
        return bool(SCALAR.match(t)) or t in self.enums or t.startswith('enum ')

    def rawparts(self, t, depth=0):
        """True when default-initialising a variable of this type leaves (part of) it without a value"""
        t = re.sub(r'^const ', '', t.strip()).strip()
        if self.isscalar(t):
            return True
        m = re.match(r'^(.*\S)\s*\[\d*\]$', t)
        if m:
            return self.rawparts(m.group(1), depth)
        if t.startswith('std::array<'):
            inner = t[len('std::array<'):t.rindex('>')]
            return self.rawparts(inner.rsplit(',', 1)[0].strip(), depth)
        r = self.recs.get(t)
        if r is not None and not r.get('dep') and depth < 6:
            if any(m.get('ctor') and not m.get('impl') and not m.get('copy') and not m.get('move') for m in r.get('methods', [])) and not any(m.get('ctor') and m.get('dflt') and not m.get('copy') and not m.get('move') for m in r['methods']):
                return False               # a user-written constructor: its own obligation
            return any('init' not in x and self.rawparts(x['t'], depth + 1) for x in r['fields'])
        return False

    def fields(self, q):
        """members of a class that need a value: name -> (type, line)"""
        r = self.recs.get(q)
        out = {}
        if r is None:
            return out
        for x in r['fields']:
            if x.get('n') and self.rawparts(x['t']):
                out[x['n']] = x
        return out

    # ---- constructors
    def constructor(self, f):
        q = f['q'].rsplit('::', 1)[0]
        fs = self.fields(q)
        r = self.recs.get(q)
        if r is None:
            return
        deleg = any(i.get('deleg') for i in f['inits'])
        what = '%s(%s)' % (q, ', '.join(strip_t(p['t']) for p in f['params']))
        A = Walk(self, f, fs, {x['n'] for x in r['fields'] if x.get('n')})
        try:
            missing, early = A.ctor(deleg, r)
        except Skip as e:
            self.C.undecided('every member has a value after construction', '%s: %s' % (what, e))
            return
        key = q + '(' + ', '.join(strip_t(p['t']) for p in f['params']) + ')'
        for m in sorted(fs):
            if m in missing:
                if A.merged:
                    self.C.undecided('every member has a value after construction', key + ' ' + m)
                else:
                    self.C.bad('every member has a value after construction', short(q) + ' ' + m, loc(f), 'the constructor %s can finish without giving %s a value' % (what, m))
            else:
                self.C.instance('every member has a value after construction', key + ' ' + m)
        for m, l in early.items():
            self.C.bad('no member is read before it has a value', short(q) + ' ' + m, '%s:%s' % (core.rel(f['file']), l), 'the constructor %s reads %s before it has a value' % (what, m))
        if not early:
            self.C.instance('no member is read before it has a value', key)
        self.locals(f, A, key)

    def implicit(self, q, r):
        """records without a constructor of their own that are default-initialised"""
        fs = {x['n']: x for x in r['fields'] if x.get('n') and 'init' not in x and self.rawparts(x['t'])}
        return fs

    def function(self, f):
        A = Walk(self, f, {}, set())
        try:
            A.func()
        except Skip as e:
            self.C.undecided('locals are assigned before use', '%s: %s' % (f['q'], e))
            return
        self.locals(f, A, f['q'])

    def locals(self, f, A, key):
        for (d, n), l in A.uninit.items():
            if A.merged:
                self.C.undecided('locals are assigned before use', '%s %s' % (key, n)); continue
            self.C.bad('locals are assigned before use', '%s %s' % (re.sub(r'<.*>', '', f['q'].split('(')[0]), n), '%s:%s' % (core.rel(f['file']), l), '%s uses %s on a path on which it has no value' % (f['q'], n))
        for d, n in A.tracked.items():
            if (d, n) not in A.uninit:
                self.C.instance('locals are assigned before use', '%s %s' % (key, n))

    # ---- element storage obtained with new[]
    def storage(self, f):
        rule = 'new element storage has values'
        body = f['body']
        news = []

        def find(n, sink):
            if isinstance(n, list):
                for x in n:
                    find(x, sink)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'new':
                if n.get('arr') and self.rawparts(n.get('et', '')) and 'init' not in n:
                    news.append((n, sink))
                elif n.get('arr') and self.rawparts(n.get('et', '')):
                    news.append((None, sink))
                return
            if k == 'var':
                find(n.get('init'), ('v', n.get('d'), n.get('n'))); return
            if k == 'bin' and n['op'] == '=':
                t = n['a']
                while t.get('k') in ('cast', 'paren'):
                    t = t['e']
                if t.get('k') == 'mem' and t['e'].get('k') == 'this':
                    find(n['b'], ('f', t['n'], t['n']))
                elif t.get('k') == 'ref':
                    find(n['b'], ('v', t.get('d'), t['n']))
                else:
                    find(n['b'], None)
                find(n['a'], None); return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    find(v, sink if k in ('cast', 'paren', 'ctor', 'call', 'init') else None)
        find(body, None)
        for i in f.get('inits') or []:
            find(i.get('e'), ('f', i.get('field'), i.get('field')))

        def is_(n, sink):
            while n.get('k') in ('cast', 'paren'):
                n = n['e']
            if sink[0] == 'v':
                return n.get('k') == 'ref' and n.get('d') == sink[1]
            return n.get('k') == 'mem' and n['n'] == sink[1] and n['e'].get('k') == 'this'
        for n, sink in news:
            what = '%s %s' % (f['q'], sink[2] if sink else 'new[]')
            if n is None:
                self.C.instance(rule, what); continue
            filled = False
            if sink:
                for x in walk(body):
                    k = x.get('k')
                    if k in ('bin',) and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                        t = x['a']
                        while t.get('k') in ('cast', 'paren'):
                            t = t['e']
                        if t.get('k') == 'idx' and is_(t['e'] if 'e' in t else t['a'], sink) or t.get('k') == 'un' and t['op'] == '*':
                            filled = True
                        if t.get('k') == 'call' and t.get('opr') == '[]' and is_(t['args'][0], sink):
                            filled = True
                    if k == 'call' and x.get('fn') != 'get' and sink[0] == 'v':
                        for a in (x.get('args') or []):
                            if any(is_(y, sink) for y in walk(a) if isinstance(y, dict)):
                                g = self.F.funcs.get(x.get('f'))
                                filled = True
                    if k == 'call' and x.get('fn') in ('fill', 'fill_n', 'copy', 'copy_n', 'memcpy', 'memset', 'iota', 'transform', 'read', 'generate'):
                        for a in (x.get('args') or []):
                            if any(is_(y, sink) for y in walk(a) if isinstance(y, dict)):
                                filled = True
            if filled:
                self.C.instance(rule, what)
            elif sink is None or sink[0] == 'v' and not any(is_(y, sink) for y in walk(body) if isinstance(y, dict)):
                self.C.undecided(rule, what)
            else:
                self.C.bad(rule, short(f['q'].split('(')[0]) + ' ' + sink[2], '%s:%s' % (core.rel(f['file']), n.get('l') or f['l']), '%s makes element storage for %s with new[] and neither value-initialises nor fills it' % (f['q'], sink[2]))


def short(q):
    """class name without template arguments and namespaces"""
    d, o = 0, ''
    for c in q:
        d += c == '<'
        if not d: o += c
        d -= c == '>'
    return o.split('::')[-1]


class Skip(Exception):
    pass


def text(n):
    def c(x):
        if isinstance(x, dict):
            return {k: c(v) for k, v in x.items() if k in ('k', 'n', 'd', 'op', 'e', 'a', 'b', 'v', 'fn', 'f', 'obj', 'args', 'i', 'dk', 'c', 'opr', 'fe')}
        if isinstance(x, list):
            return [c(y) for y in x]
        return x
    while n.get('k') in ('paren', 'cast'):
        n = n['e']
    return json.dumps(c(n), sort_keys=True)


class Walk:
    CAP = 48

    def __init__(self, P, f, fs, members):
        self.P, self.F, self.f, self.fs, self.members = P, P.F, f, fs, members
        self.uninit = {}
        self.tracked = {}
        self.early = {}
        self.merged = False
        self.returns = []
        self.ltypes = {v['d']: v.get('t', '') for v in walk(f.get('body') or {}) if v.get('k') == 'var' and v.get('d')}
        self.inctor = False

    # states: list of (assigned frozenset, conds tuple sorted ((text, bool), ...))
    def norm(self, S):
        S = list(dict.fromkeys(S))
        if len(S) > self.CAP:
            S = list(dict.fromkeys((a, ()) for a, c in S))
            self.merged = True
        if len(S) > 4 * self.CAP:
            raise Skip('too many paths')
        return S

    def assign(self, S, slot):
        return self.norm([(a | {slot}, self.drop(c, slot)) for a, c in S])

    def drop(self, conds, slot):
        tok = '"n": "%s"' % slot[1] if slot[0] == 'f' else '"d": %s,' % json.dumps(slot[1])
        return tuple(x for x in conds if tok not in x[0])

    def slot_of(self, n):
        """the tracked storage an lvalue expression lies in, and whether it is the whole of it"""
        whole = True
        while True:
            k = n.get('k')
            if k in ('cast', 'paren', 'x:ParenExpr'):
                n = n['e']
            elif k == 'idx':
                n = n['e'] if 'e' in n else n['a']; whole = False
            elif k == 'call' and n.get('opr') == '[]' and n['args']:
                n = n['args'][0]; whole = False
            elif k == 'call' and n.get('fn') in ('at', 'front', 'back') and n.get('obj') is not None:
                n = n['obj']; whole = False
            elif k == 'mem':
                e = n['e']
                while e.get('k') in ('cast', 'paren'):
                    e = e['e']
                if e.get('k') == 'this':
                    return ('f', n['n']), whole
                n = n['e']; whole = False
            elif k == 'x:CXXDependentScopeMemberExpr':
                c = n.get('c') or []
                if not c:
                    return (('f', n.get('n')), whole) if n.get('n') in self.members else (None, whole)
                e = c[0]
                while e.get('k') in ('cast', 'paren'):
                    e = e['e']
                if e.get('k') == 'this':
                    return ('f', n['n']), whole
                n = c[0]; whole = False
            elif k == 'ref':
                return (('v', n['d']), whole) if n.get('dk') == 'local' else (None, whole)
            elif k == 'un' and n['op'] == '*':
                return None, False
            else:
                return None, whole

    def read(self, n, S, slot):
        if slot[0] == 'v':
            if slot[1] in self.tracked and any(slot not in a for a, c in S):
                self.uninit.setdefault((slot[1], self.tracked[slot[1]]), n.get('l') or self.line)
        elif self.inctor and slot[1] in self.need and any(slot not in a for a, c in S):
            self.early.setdefault(slot[1], n.get('l') or self.line)

    # ---- expressions: evaluate for reads and assignments
    line = 0

    def ev(self, n, S, rd=True):
        if n is None or not S:
            return S
        if isinstance(n, list):
            for x in n:
                S = self.ev(x, S)
            return S
        if not isinstance(n, dict):
            return S
        k = n.get('k')
        if n.get('l'):
            self.line = n['l']
        if k == 'lambda':
            for x in walk(n):          # captured variables may be assigned when it is called
                if x.get('k') == 'ref' and x.get('dk') == 'local' and x['d'] in self.tracked:
                    S = self.assign(S, ('v', x['d']))
                if x.get('k') == 'mem' and x.get('e', {}).get('k') == 'this':
                    S = self.assign(S, ('f', x['n']))
            return S
        if k in ('sizeof', 'x:UnaryExprOrTypeTraitExpr', 'x:CXXNoexceptExpr'):
            return S
        if k == 'bin' and n['op'] in ('&&', '||'):
            S1 = self.ev(n['a'], S)
            T = self.test(n['a'], S1, n['op'] == '&&')
            S2 = self.ev(n['b'], T) if T else []
            skip = self.test(n['a'], S1, n['op'] == '||')
            return self.norm(S2 + skip)
        if k == 'cond':
            S = self.ev(n['c'], S)
            return self.norm(self.ev(n['a'], self.test(n['c'], S, True)) + self.ev(n['b'], self.test(n['c'], S, False)))
        if k == 'bin' and n['op'] == '=':
            S = self.ev(n['b'], S)
            return self.lhs(n['a'], S)
        if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            S = self.ev(n['b'], S)
            S = self.ev(n['a'], S)
            return self.lhs(n['a'], S)
        if k == 'call' and n.get('opr') == '=' and len(n.get('args', [])) == 2:
            S = self.ev(n['args'][1], S)
            t = n['args'][0]
            while t.get('k') in ('cast', 'paren'):
                t = t['e']
            if t.get('k') == 'un' and t['op'] == '*' and t['e'].get('k') == 'this':
                return self.all(S)
            if t.get('k') == 'call' and t.get('fn') == 'tie':
                for x in t['args']:
                    S = self.lhs(x, S)
                return S
            return self.lhs(t, S)
        if k == 'call' and n.get('opr') and n['opr'].endswith('=') and n['opr'] not in ('==', '!=', '<=', '>='):
            for x in n['args']:
                S = self.ev(x, S)
            return self.lhs(n['args'][0], S)
        if k == 'un' and n['op'] == '&':
            s, w = self.slot_of(n['e'])
            return self.assign(S, s) if s else self.ev(n['e'], S)
        if k == 'un' and n['op'] in ('++', '--'):
            S = self.ev(n['e'], S)
            return self.lhs(n['e'], S)
        if k in ('idx', 'mem', 'ref', 'x:CXXDependentScopeMemberExpr') or k == 'call' and n.get('opr') == '[]':
            s, w = self.slot_of(n)
            if s:
                # subscripts are evaluated
                x = n
                while x.get('k') in ('idx', 'call', 'cast', 'paren', 'mem'):
                    if x.get('k') == 'idx':
                        S = self.ev(x.get('i'), S); x = x['e'] if 'e' in x else x['a']
                    elif x.get('k') == 'call':
                        S = self.ev(x['args'][1:], S); x = x['args'][0]
                    else:
                        if x.get('k') == 'mem' and x['e'].get('k') == 'this': break
                        x = x['e']
                if rd:
                    self.read(n, S, s)
                return S
        if k == 'call':
            return self.call(n, S)
        if k == 'ctor':
            return self.args(n, S)
        if k == 'throw':
            self.ev(n.get('e'), S)
            return []
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key not in ('caps', 'params'):
                if isinstance(v, dict) and 'k' in v:
                    S = self.ev(v, S)
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, dict) and 'k' in x:
                            S = self.ev(x, S)
        return S

    def lhs(self, t, S):
        while t.get('k') in ('cast', 'paren'):
            t = t['e']
        s, w = self.slot_of(t)
        if s is None:
            return self.ev(t, S)
        x = t
        while x.get('k') in ('idx', 'call', 'mem'):
            if x.get('k') == 'idx':
                S = self.ev(x.get('i'), S); x = x['e'] if 'e' in x else x['a']
            elif x.get('k') == 'call':
                S = self.ev(x['args'][1:], S)
                x = x['args'][0] if x['args'] else x.get('obj') or {}
            else:
                if x['e'].get('k') == 'this': break
                x = x['e']
        return self.assign(S, s)

    def isarray(self, s):
        t = self.ltypes.get(s[1], '') if s[0] == 'v' else (self.fs.get(s[1]) or {}).get('t', '')
        return t.rstrip().endswith(']') or 'std::array<' in t or t in self.P.recs

    def all(self, S):
        return self.norm([(a | {('f', m) for m in self.members}, c) for a, c in S])

    def args(self, n, S):
        g = self.F.funcs.get(n.get('f'))
        pts = [p['t'] for p in g['params']] if g else n.get('pt') or []
        byref = []
        for i, a in enumerate(n.get('args') or []):
            t = re.sub(r'\b(__restrict|restrict|__restrict__)\b', '', pts[i]).rstrip() if i < len(pts) else None
            s, w = self.slot_of(a)
            if s and t is not None and t.rstrip().endswith('&') and not t.startswith('const ') and not t.rstrip().endswith('&&'):
                byref.append(s)
                continue
            if s and t is not None and (t.rstrip().endswith('*') or t.rstrip().endswith(']')) and self.isarray(s):
                # an array handed over by address: an output unless its elements are const
                if not t.lstrip().startswith('const '):
                    byref.append(s)
                    continue
                if t.lstrip().startswith('const ') and n.get('fn') not in self.P.reads:
                    pass
            if s and t is None:             # unknown callee: the argument may be an output
                byref.append(s)
                continue
            if s and t is not None and t.rstrip().endswith('&') and s[0] == 'v' and w and not self.P.isscalar(strip_t(t)):
                S = self.ev(a, S, rd=True)
                continue
            S = self.ev(a, S)
        for s in byref:
            S = self.assign(S, s)
        return S

    def call(self, n, S):
        o = n.get('obj')
        b = o
        while b is not None and b.get('k') in ('cast', 'paren'):
            b = b['e']
        if b is not None and b.get('k') == 'this':
            S = self.args(n, S)
            must = self.P_summary(n.get('f'), n.get('fn'))
            return self.norm([(a | must, c) for a, c in S])
        if o is not None:
            s, w = self.slot_of(o)
            if s and not n.get('const'):
                S = self.args(n, S)
                return self.assign(S, s)
            if s and n.get('fn') in ('size', 'empty', 'max_size', 'begin', 'end', 'data') and self.isarray(s):
                pass
            else:
                S = self.ev(o, S)
        if n.get('fe') and n['fe'].get('k') == 'x:CXXDependentScopeMemberExpr':
            pass
        elif n.get('fe') is not None:
            S = self.ev(n['fe'], S)
        if not n.get('f') and any(a.get('k') == 'this' or a.get('k') == 'un' and a['op'] == '*' and a['e'].get('k') == 'this' for a in n.get('args') or []):
            S = self.all(S)
        for a in n.get('args') or []:
            if a.get('k') == 'this' or a.get('k') == 'un' and a['op'] == '*' and a['e'].get('k') == 'this':
                S = self.all(S)
        if n.get('fn') in ('abort', 'exit', 'terminate'):
            self.args(n, S)
            return []
        return self.args(n, S)

    def P_summary(self, f, name):
        """members a method of this object assigns on every path that returns"""
        g = self.F.funcs.get(f)
        if g is None or not g.get('body'):
            return frozenset(('f', m) for m in self.members)       # unknown: may assign anything
        if g.get('const'):
            return frozenset()
        key = g['f']
        if key in self.P.memo:
            return self.P.memo[key]
        self.P.memo[key] = frozenset()
        W = Walk(self.P, g, {}, self.members)
        try:
            W.func()
            outs = W.outs
            r = frozenset.intersection(*[frozenset(x for x in a if x[0] == 'f') for a, c in outs]) if outs else frozenset(('f', m) for m in self.members)
        except Skip:
            r = frozenset(('f', m) for m in self.members)
        self.P.memo[key] = r
        return r

    # ---- conditions
    def test(self, n, S, pol):
        """states in which the condition has the given outcome"""
        while n.get('k') in ('cast', 'paren'):
            n = n['e']
        k = n.get('k')
        if k == 'un' and n['op'] == '!':
            return self.test(n['e'], S, not pol)
        if k == 'bin' and n['op'] in ('&&', '||'):
            if (n['op'] == '&&') == pol:
                return self.test(n['b'], self.test(n['a'], S, pol), pol)
            a = self.test(n['a'], S, pol)
            b = self.test(n['b'], self.test(n['a'], S, not pol), pol)
            return self.norm(a + b)
        if k in ('bool', 'int'):
            v = str(n['v']) not in ('0', 'false', 'False')
            return S if v == pol else []
        if k == 'bin' and n['op'] in ('!=', '==', '<', '>=', '>', '<='):
            # canonical: == and < only
            op, a, b = n['op'], n['a'], n['b']
            if op == '!=': op, pol = '==', not pol
            if op == '>=': op, pol = '<', not pol
            if op == '>': op, a, b = '<', b, a
            if op == '<=': op, a, b, pol = '<', b, a, not pol
            ta, tb = text(a), text(b)
            if op == '==' and tb < ta: ta, tb = tb, ta
            key = '%s %s %s' % (op, ta, tb)
            return self.take(S, key, pol, eq=(ta, tb) if op == '==' else None)
        return self.take(S, text(n), pol)

    def take(self, S, key, pol, eq=None):
        out = []
        for a, c in S:
            d = dict(c)
            if d.get(key, pol) != pol:
                continue
            if eq and pol:
                # equal to two different constants is impossible
                bad = False
                for x in eq:
                    if '"k": "int"' in x or '"dk": "enum"' in x or '"enum"' in x:
                        other = eq[0] if x == eq[1] else eq[1]
                        for t, v in c:
                            if v and t.startswith('== ') and other in t and x not in t and ('"k": "int"' in t.replace(other, '') or '"enum"' in t.replace(other, '')):
                                bad = True
                if bad:
                    continue
            d[key] = pol
            out.append((a, tuple(sorted(d.items()))))
        return self.norm(out)

    # ---- statements
    def st(self, s, S):
        if s is None or not S:
            return S
        k = s.get('k')
        if s.get('l'):
            self.line = s['l']
        m = getattr(self, 's_' + k.replace(':', '_'), None)
        if m:
            return m(s, S)
        return self.ev(s, S)

    def s_block(self, s, S):
        for x in s['c']:
            S = self.st(x, S)
        return S

    def s_null(self, s, S): return S

    def s_decl(self, s, S):
        for v in s['c']:
            if v.get('k') != 'var':
                S = self.ev(v, S); continue
            S = self.ev(v.get('init'), S) if v.get('init') is not None else S
            if v.get('static') or v.get('bind'):
                continue
            i = v.get('init')
            raw = self.P.rawparts(v.get('t', '')) and not v.get('t', '').rstrip().endswith('&')
            none = i is None or (i.get('k') == 'ctor' and not i.get('args') and not i.get('in') and not i.get('list') and not v.get('list') and not i.get('zero'))
            if raw and none and (i is None or not v.get('t', '').startswith('std::array') or True):
                d = v['d']
                self.tracked[d] = v.get('n')
                slot = ('v', d)
                S = self.norm([(a - {slot}, self.drop(c, slot)) for a, c in S])
            else:
                S = self.norm([(a | {('v', v.get('d'))}, self.drop(c, ('v', v.get('d')))) for a, c in S])
        return S

    def s_if(self, s, S):
        if s.get('init'):
            S = self.st(s['init'], S)
        if s.get('cvar'):
            S = self.st({'k': 'decl', 'c': [s['cvar']] if s['cvar'].get('k') == 'var' else s['cvar'].get('c', [])}, S)
        S = self.ev(s['cond'], S)
        if s.get('constexpr'):
            return self.norm(self.st(s['then'], S) + (self.st(s['else'], S) if s.get('else') else S))
        t = self.test(s['cond'], S, True)
        e = self.test(s['cond'], S, False)
        t = self.st(s['then'], t)
        if s.get('else'):
            e = self.st(s['else'], e)
        return self.norm(t + e)

    def s_return(self, s, S):
        S = self.ev(s.get('e'), S)
        self.outs += S
        return []

    def s_throw(self, s, S):
        self.ev(s.get('e'), S)
        return []

    def s_break(self, s, S):
        if self.brk: self.brk[-1].extend(S)
        return []

    def s_continue(self, s, S):
        if self.cnt: self.cnt[-1].extend(S)
        return []

    def s_goto(self, s, S): raise Skip('goto')

    def loop(self, s, S, cond, inc, body, first, atleast=False):
        if not first and cond is not None:
            S = self.ev(cond, S)
        c = cond
        while c is not None and c.get('k') in ('cast', 'paren'):
            c = c['e']
        forever = cond is None or c.get('k') in ('bool', 'int') and str(c.get('v')) not in ('0', 'false', 'False')
        T = S if first or cond is None else self.test(cond, S, True)
        Z = [] if first or forever or atleast else self.test(cond, S, False)
        self.brk.append([]); self.cnt.append([])
        B = self.st(body, T)
        cn = self.cnt.pop(); br = self.brk.pop()
        B = self.norm(B + cn)
        if inc is not None:
            B = self.ev(inc, B)
        mod = set()
        for x in walk(body):
            if x.get('k') in ('bin', 'un') and ('=' in x['op'] or x['op'] in ('++', '--')) and x['op'] not in ('==', '!=', '<=', '>='):
                sl, w = self.slot_of(x.get('a') or x.get('e'))
                if sl: mod.add(sl)
        if cond is not None and not forever:
            B = self.ev(cond, B)
            Bf = self.test(cond, self.forget(B, cond), False)
        else:
            Bf = []
        # in a later pass anything the body assigned may have changed: conditions on those are dropped
        def clean(Q):
            for sl in mod:
                Q = [(a, self.drop(c, sl)) for a, c in Q]
            return Q
        # an array is filled by a loop over its elements: the loop is taken to run
        fill = {sl for sl in self.written(body) if self.isarray(sl)}
        Z = [(a | fill, c) for a, c in Z]
        return self.norm(clean(Z) + clean(Bf) + clean(br))

    def written(self, body):
        """storage the body certainly assigns when it is run once"""
        W = Walk(self.P, self.f, self.fs, self.members)
        W.brk, W.cnt, W.outs, W.need = [[]], [[]], [], set()
        W.inctor = self.inctor
        W.written = lambda b: set()
        try:
            B = W.st(body, [(frozenset(), ())])
        except Skip:
            return set()
        B = B + W.cnt[0] + W.brk[0]
        return frozenset.intersection(*[a for a, c in B]) if B else set()

    def forget(self, S, cond):
        """the condition may have a new outcome after a pass"""
        toks = {'"d": %s,' % json.dumps(x['d']) for x in walk(cond) if x.get('k') == 'ref' and 'd' in x} | {'"n": "%s"' % x['n'] for x in walk(cond) if x.get('k') == 'mem'}
        return [(a, tuple(x for x in c if not any(t in x[0] for t in toks))) for a, c in S]

    def s_for(self, s, S):
        if s.get('init'):
            S = self.st(s['init'], S)
        return self.loop(s, S, s.get('cond'), s.get('inc'), s['body'], False, self.constant(s))

    def constant(self, s):
        """for (i = a; i < b; ..) with constants a < b runs at least once"""
        i, c = s.get('init'), s.get('cond')
        if not i or i.get('k') != 'decl' or not c or c.get('k') != 'bin' or c['op'] not in ('<', '<=', '!='):
            return False
        def num(n):
            while n is not None and n.get('k') in ('cast', 'paren', 'init'):
                if n.get('v') is not None: break
                n = n['e'] if n.get('k') != 'init' else (n['c'][0] if n['c'] else {'k': 'int', 'v': '0'})
            try:
                return int(n['v'])
            except (KeyError, TypeError, ValueError):
                return None
        v = i['c'][0]
        a = num(v.get('init')) if v.get('init') else None
        b = num(c['b'])
        l = c['a']
        while l.get('k') in ('cast', 'paren'):
            l = l['e']
        return a is not None and b is not None and l.get('k') == 'ref' and l.get('d') == v.get('d') and (a < b or c['op'] == '<=' and a == b)

    def s_while(self, s, S): return self.loop(s, S, s['cond'], None, s['body'], False)
    def s_do(self, s, S): return self.loop(s, S, s['cond'], None, s['body'], True)

    def s_forrange(self, s, S):
        S = self.ev(s.get('range') or s.get('beg'), S)
        v = s.get('var')
        if v is not None and v.get('d'):
            S = self.assign(S, ('v', v['d']))
        self.brk.append([]); self.cnt.append([])
        B = self.st(s['body'], S)
        cn = self.cnt.pop(); br = self.brk.pop()
        fill = {sl for sl in self.written(s['body']) if self.isarray(sl)}
        return self.norm([(a | fill, c) for a, c in S] + B + cn + br)

    def s_switch(self, s, S):
        S = self.ev(s['cond'] if 'cond' in s else s.get('c'), S)
        body = s['body']
        self.brk.append([])
        cur = []
        hasdef = False
        vals = []
        def cases(b):
            return b['c'] if b.get('k') == 'block' else [b]
        key = text(s['cond'] if isinstance(s.get('cond'), dict) else s['c'])
        def go(x, cur):
            nonlocal hasdef
            if x.get('k') == 'case':
                vals.append(x.get('val'))
                ent = self.take(S, '== ' + ' '.join(sorted([key, text(x['val'])])), True) if x.get('val') else S
                return go(x['body'], self.norm(cur + ent)) if x.get('body') else self.norm(cur + ent)
            if x.get('k') == 'default':
                hasdef = True
                return go(x['body'], self.norm(cur + S)) if x.get('body') else self.norm(cur + S)
            return self.st(x, cur)
        for x in cases(body):
            cur = go(x, cur)
        br = self.brk.pop()
        out = cur + br
        full = False
        if not hasdef:
            ts = {(v or {}).get('of') or (v or {}).get('t') for v in vals}
            n = {x['n'] for v in vals if v for x in walk(v) if x.get('k') == 'ref' and x.get('dk') == 'enum'}
            for e in (self.F.enums.values() if isinstance(self.F.enums, dict) else self.F.enums):
                names = {c['n'] for c in e['c']}
                if n and names <= n:
                    full = True
            if not full:
                out = out + S
        return self.norm(out)

    def s_case(self, s, S): return self.st(s.get('body'), S)
    def s_default(self, s, S): return self.st(s.get('body'), S)

    def s_try(self, s, S):
        B = self.st(s.get('body') or s.get('c', [None])[0], S)
        out = list(B)
        for h in s.get('handlers') or s.get('catches') or (s.get('c') or [])[1:]:
            out += self.st(h.get('body') or h, list(S)) if isinstance(h, dict) else []
        return self.norm(out)

    def s_omp(self, s, S): return self.st(s.get('body'), S)
    def s_init(self, s, S): return self.ev(s, S)

    outs = ()

    def func(self):
        self.brk, self.cnt, self.outs = [], [], []
        S = self.st(self.f['body'], [(frozenset(), ())])
        self.outs += S

    def ctor(self, deleg, r):
        self.brk, self.cnt, self.outs = [], [], []
        self.inctor = True
        self.need = set(self.fs)
        S = [(frozenset(), ())]
        if deleg:
            S = self.all(S)
        base = set()
        seen = set()
        order = []
        for i in self.f['inits']:
            if i.get('deleg'):
                S = self.ev(i['e'], S); S = self.all(S); continue
            if i.get('base'):
                S = self.ev(i['e'], S); continue
            n = i.get('field')
            e = i['e']
            S = self.ev(e, S)
            x = next((x for x in r['fields'] if x.get('n') == n), None)
            none = (not i.get('written')) and (e is None or e.get('k') == 'ctor' and not e.get('args') and not (x or {}).get('init'))
            if x is not None and none and n in self.fs:
                seen.add(n); continue
            S = self.assign(S, ('f', n))
            seen.add(n)
        for x in r['fields']:
            if x.get('n') and 'init' in x:
                S = self.assign(S, ('f', x['n']))
        if self.f.get('body') is not None:
            S = self.st(self.f['body'], S)
        self.outs += S
        missing = {m for m in self.fs for a, c in self.outs if ('f', m) not in a}
        return missing, self.early


def run(tier):
    C = Check('P19', tier, 'Path-sensitive definite assignment: every constructor gives every scalar member (numbers, flags, raw pointers, enumerations, arrays and structs of them) a value on every normal path and reads none before; every function assigns each local scalar before it is read or returned. Repeated tests of one condition are correlated, loops are followed for zero and one pass, switch over all enumerators is exhaustive.')
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    P = P19(C, F)
    done = set()
    for f in sorted(F.funcs.values(), key=lambda f: f['f']):
        if f.get('file', '').startswith(core.VERIF if hasattr(core, 'VERIF') else '/verif'):
            continue
        if 'inits' in f and not f.get('dep') and not f.get('dflt') and not f.get('impl'):
            P.constructor(f)
        elif f.get('body') and not f.get('dep'):
            P.function(f)
        if f.get('body') and not f.get('dep'):
            P.storage(f)
    C.floor('every member has a value after construction', 20)
    C.floor('locals are assigned before use', 20)
    return C.finish()
