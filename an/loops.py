"""Interpretation of imperative code at loop-body granularity (built on the schema interpreter of p25).

Every loop body is run once from a generic state: variables and arrays changed by the loop hold unknown (carried) values, the loop
condition is a guard, and every path through the body is recorded with its guards and its effects (array writes, variable updates,
calls).  After the loop those variables and arrays are again generic.  Reads of arrays are exact: a read looks for the latest write
whose index is equal, and where equality is not known both cases are followed."""
import copy
import core
from core import walk, strip_t
from p25 import Interp, Unk, Ret, Thr, Brk, Cnt, Dead, lin, aslin, unlin, ladd, lmul, const, pos, fst, snd


def bare(n):
    while n.get('k') in ('cast', 'paren'):
        n = n['e']
    return n


class LInterp(Interp):
    def __init__(self, F, opaque=()):
        super().__init__(F, opaque)
        self.ver = 0
        self.lower, self.upper = {}, {}
        self.records = []

    # ---- arrays
    def isarr(self, o):
        return o[0] in ('A', 'ptr')

    def flat(self, o, i):
        if o[0] == 'ptr':
            return o[1], ladd(o[2], i)
        return o, i

    def index(self, o, i):
        if not self.isarr(o):
            return super().index(o, i)
        a, i = self.flat(o, i)
        for e in reversed(self.events):
            if e['op'] == 'havoc' and e['on'] == a:
                return ('at', ('A', a[1], e['ver']), i)
            if e['op'] == 'aw' and e['on'] == a:
                c = self.cmpv('==', i, e['key']) if i != e['key'] else ('bool', True)
                if self.truth(c):
                    return e['val']
        return ('at', a, i)

    def store(self, l, v):
        if l[0] == 'slot' and self.isarr(l[1]):
            a, i = self.flat(l[1], l[2])
            self.events.append(dict(op='aw', on=a, key=i, val=v, path=list(self.path)))
            return
        if l[0] == 'fld' and self.H[l[1]]['f'].get(l[2]) != v:
            self.events.append(dict(op='fw', on=l[2], val=v, path=list(self.path)))
        super().store(l, v)

    def lv(self, n):
        if n['k'] == 'idx':
            return ('slot', self.val(n['e'] if 'e' in n else n['a']), self.val(n['i']))
        return super().lv(n)

    def v_idx(self, n):
        return self.index(self.val(n['e'] if 'e' in n else n['a']), self.val(n['i']))

    def v_un(self, n):
        if n['op'] == '&':
            l = self.lv(n['e'])
            if l[0] == 'slot' and self.isarr(l[1]):
                a, i = self.flat(l[1], l[2])
                return ('ptr', a, i)
            raise Unk('address')
        return super().v_un(n)

    def v_float(self, n):
        try:
            f = float(n['v'])
            if f == int(f):
                return lin(int(f))
        except (ValueError, OverflowError):
            pass
        return ('num', n['v'])

    def binop(self, op, a, b):
        if op in ('+', '-') and a[0] in ('ptr', 'A') and op == '+':
            x, i = self.flat(a, lin(0)) if a[0] == 'ptr' else (a, lin(0))
            return ('ptr', x, ladd(i, b))
        if op in ('%', '/') and const(a) is not None and const(b) not in (None, 0) and const(a) >= 0 and const(b) > 0:
            return lin(const(a) % const(b) if op == '%' else const(a) // const(b))
        v = super().binop(op, a, b)
        if v[0] == 'mod' and const(aslin(v[1])) is not None and const(aslin(v[2])) not in (None, 0):
            return lin(const(aslin(v[1])) % const(aslin(v[2])))
        return v

    def cmpv(self, op, a, b):
        if op in ('==', '!=') and (const(a) == 0 or const(b) == 0) and not (const(a) is not None and const(b) is not None):
            return ('cond', ('zero', aslin(b if const(a) == 0 else a)), op == '==')
        return super().cmpv(op, a, b)

    def truth(self, v):
        if v[0] in ('bool', 'cond') or const(v) is not None:
            return super().truth(v)
        return self.branch((('zero', aslin(v)), False))

    def v_cast(self, n):
        return self.val(n['e'])

    def s_decl(self, s):
        for v in s['c']:
            if v['k'] == 'var' and not v.get('bind') and v.get('init') is not None and v['init']['k'] == 'init' and ('[' in v.get('t', '') or 'std::array' in v.get('t', '')):
                a = ('A', v.get('n') or v['d'])
                for i, x in enumerate(v['init']['c'][0]['c'] if 'std::array' in v['t'] and v['init']['c'] and v['init']['c'][0]['k'] == 'init' else v['init']['c']):
                    self.events.append(dict(op='aw', on=a, key=lin(i), val=self.val(x), path=list(self.path), init=True))
                self.env[v['d']] = a
                self.asize[v['d']] = sum(1 for e in self.events if e['op'] == 'aw' and e['on'] == a and e.get('init'))
            elif v['k'] == 'var' and ('unique_ptr' in v.get('t', '') and '[]' in v['t'] or strip_t(v.get('t', '')).startswith(('std::vector', 'std::list', 'std::forward_list', 'std::deque')) and not v.get('t', '').rstrip().endswith('&')):
                a = ('A', v.get('n') or v['d'])
                self.env[v['d']] = a
                self.names[v['d']] = v.get('n')
                i = v.get('init')
                if i is not None and i.get('k') == 'ctor' and i.get('ilist'):
                    for x in i['args'][0]['c'] if i['args'] and i['args'][0].get('k') == 'init' else ():
                        self.events.append(dict(op='push', on=a, val=self.val(x), path=list(self.path), init=True))
                elif i is not None and i.get('k') == 'ctor' and [x for x in i['args'] if not (x.get('k') == 'ctor' and x.get('dflt'))]:
                    r = [x for x in i['args'] if not (x.get('k') == 'ctor' and x.get('dflt'))]
                    if len(r) == 2 and not i.get('ilist'):
                        self.events.append(dict(op='fill', on=a, size=self.val(r[0]), val=self.val(r[1]), path=list(self.path)))
            else:
                super().s_decl(dict(s, c=[v]))
                self.names[v.get('d')] = v.get('n')
                if v['k'] == 'var' and v.get('init') is not None:
                    self.events.append(dict(op='decl', on=v.get('n'), val=self.env.get(v['d']), path=list(self.path)))

    names = {}
    asize = {}

    def v_call(self, n):
        fn = n.get('fn')
        if n.get('opr') == '=' and n['args'] and n['args'][0].get('k') == 'call' and n['args'][0].get('fn') == 'tie':
            v = self.val(n['args'][1])
            for k, t in enumerate(n['args'][0]['args']):
                self.store(self.lv(t), ('tget', v, k))
            return v
        if fn in ('printf', 'to_string', 'show'):
            return ('void',)
        if fn in ('make_tuple', 'tuple'):
            return ('tuple',) + tuple(self.val(a) for a in n['args'])
        if fn == 'swap' and len(n['args']) == 2 and n.get('obj') is None:
            a, b = (self.lv(x) for x in n['args'])
            x, y = self.val(n['args'][0]), self.val(n['args'][1])
            self.store(a, y); self.store(b, x)
            return ('void',)
        if fn in ('abs', 'fabs'):
            return ('abs', self.val(n['args'][0]))
        if fn == 'max' and not n['args']:
            return ('MAX',)
        if fn in ('fill', 'fill_n') and len(n['args']) == 3:
            a, b, v = (self.val(x) for x in n['args'])
            if fn == 'fill' and a[0] == 'cur' and b[0] == 'end' and self.isarr(a[2]):
                self.events.append(dict(op='fill', on=a[2], val=v, path=list(self.path)))
                self.bump(a[2])
                return ('void',)
            if self.isarr(a):
                x, lo = self.flat(a, lin(0))
                hi = b if fn == 'fill_n' else ladd(b[2], lo, -1) if b[0] == 'ptr' and b[1] == x else None
                if const(aslin(lo)) != 0 or hi is None:
                    raise Unk('fill of a part')
                self.events.append(dict(op='fill', on=x, size=hi, val=v, path=list(self.path)))
                self.bump(x)
                return ('void',)
            raise Unk('fill')
        if n.get('obj') is not None and fn in ('size', 'begin', 'end', 'assign', 'resize', 'push_front', 'push_back', 'emplace_front', 'emplace_back', 'data', 'get'):
            o = self.val(n['obj'])
            if self.isarr(o):
                if fn == 'begin': return ('cur', None, o)
                if fn == 'end': return ('end', o)
                if fn == 'size': return ('size', o)
                if fn in ('data', 'get'): return o
                if fn == 'assign':
                    self.events.append(dict(op='fill', on=o, size=self.val(n['args'][0]), val=self.val(n['args'][1]), path=list(self.path)))
                    self.bump(o); return ('void',)
                if fn == 'resize':
                    self.events.append(dict(op='resize', on=o, args=tuple(self.val(a) for a in n['args']), path=list(self.path))); return ('void',)
            if fn in ('push_front', 'push_back', 'emplace_front', 'emplace_back'):
                v = [self.val(a) for a in n['args']]
                self.events.append(dict(op='push', on=o, val=v[0] if len(v) == 1 else ('pair', v[0], v[1]), path=list(self.path)))
                return ('void',)
        if fn in self.opaque and n.get('f') in self.F.funcs:
            g = self.F.funcs[n['f']]
            args = [self.val(a) for a in n['args']]
            for k, (a, p) in enumerate(zip(n['args'], g['params'])):
                if core.is_nonconst_ref(p['t']):
                    self.store(self.lv(a), ('out', fn, p['n']))
            self.events.append(dict(op='call', on=fn, args=tuple(args), path=list(self.path)))
            return ('ev', fn, self.this if n.get('obj') is not None else None, tuple(args))
        return super().v_call(n)

    def bump(self, a):
        self.ver += 1
        self.events.append(dict(op='havoc', on=a, ver=self.ver, path=list(self.path)))

    # ---- loops
    def targets(self, nodes):
        vs, arrs, flds = set(), [], set()
        def tgt(t):
            while t.get('k') in ('cast', 'paren'):
                t = t['e']
            if t.get('k') == 'ref' and t.get('d') in self.env:
                v = self.env[t['d']]
                if v[0] == 'ref' and v[1][0] == 'var':
                    vs.add(v[1][1])
                elif v[0] == 'ref' and v[1][0] == 'fld':
                    flds.add(v[1][2])
                elif v[0] == 'ref' and v[1][0] == 'slot' and self.isarr(v[1][1]):
                    arrs.append(v[1][1] if v[1][1][0] == 'A' else v[1][1][1])
                else:
                    vs.add(t['d'])
            elif t.get('k') == 'idx':
                arr(t['e'] if 'e' in t else t['a'])
            elif t.get('k') == 'call' and t.get('opr') == '[]':
                arr(t['args'][0])
            elif t.get('k') == 'mem':
                flds.add(t['n'])
        def arr(b):
            try:
                v = self.val(b)
                if v[0] in ('A', 'ptr'):
                    arrs.append(v[1] and (v if v[0] == 'A' else v[1]))
            except Unk:
                while b.get('k') in ('cast', 'paren'):
                    b = b['e']
        for nd in nodes:
            if nd is None:
                continue
            for x in walk(nd):
                k = x.get('k')
                if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                    tgt(x['a'])
                elif k == 'un' and x['op'] in ('++', '--'):
                    tgt(x['e'])
                elif k == 'call' and x.get('opr') and x['opr'].endswith('=') and x['opr'] not in ('==', '!=', '<=', '>=') and x['args']:
                    tgt(x['args'][0])
                    if x['args'][0].get('fn') == 'tie':
                        for t in x['args'][0]['args']:
                            tgt(t)
                elif k == 'call' and x.get('f') in self.F.funcs:
                    g = self.F.funcs[x['f']]
                    for a, p in zip(x.get('args') or [], g['params']):
                        if core.is_nonconst_ref(p['t']):
                            tgt(a)
                    if g.get('cls') and x.get('obj') is not None and x['obj'].get('k') == 'this' and not g.get('const'):
                        s2, a2, f2 = self.targets([g.get('body')]) if g['f'] not in getattr(self, '_seen', set()) else (set(), [], set())
                        arrs.extend(a2); flds |= f2
                if k == 'call' and x.get('fn') == 'swap' and len(x['args']) == 2 and x.get('obj') is None:
                    tgt(x['args'][0]); tgt(x['args'][1])
                if k == 'call' and x.get('fn') in ('fill',):
                    try:
                        v = self.val(x['args'][0])
                        if v[0] == 'cur': arrs.append(v[2])
                    except Unk:
                        pass
        return vs, arrs, flds

    def small(self, d, node):
        """the size of a small local array this variable selects from"""
        for x in walk(node):
            if x.get('k') == 'idx' and x['i'] and bare(x['i']).get('k') == 'ref' and bare(x['i']).get('d') == d:
                b = bare(x['e'] if 'e' in x else x['a'])
                n = self.asize.get(b.get('d')) if b.get('k') == 'ref' else None
                if n:
                    return n
        return None

    def generic(self, node, init, cond, inc, body, post=False):
        self.nid += 1
        lid = node.get('l', 0), self.nid
        outer = dict(self.env)
        vs, arrs, flds = self.targets([cond, inc, body])
        rec = dict(id=lid, l=node.get('l'), pre={}, paths=[], nest=list(getattr(self, 'nest', [])), name={}, node=node)
        loopvar = init['c'][0]['d'] if init is not None and init.get('k') == 'decl' and init['c'] and init['c'][0].get('k') == 'var' else None
        rec['loopvar'] = loopvar
        this = self.this
        for d in vs:
            rec['pre'][d] = outer[d] if outer[d][0] != 'ref' else self.load(outer[d][1])
            rec['name'][d] = self.names.get(d)
        fpre = {}
        if this is not None and this in self.H:
            for k in flds:
                if k in self.H[this]['f'] and not self.isarr(self.H[this]['f'][k]):
                    fpre[k] = self.H[this]['f'][k]
        rec['fpre'] = fpre
        syms = {}
        def start():
            for a in {x: 1 for x in arrs}:
                self.bump(a)
            for d in vs:
                s = ('car', self.names.get(d) or d, lid[1])
                syms[d] = s
                self.env[d] = s
                z = [n for n in (self.small(d, node),) if n]
                if z:
                    k = next((i for i in range(z[0] - 1) if self.branch((('eqv', s, lin(i)), True))), z[0] - 1)
                    self.env[d] = lin(k)
            for k in fpre:
                self.H[this]['f'][k] = ('car', k, lid[1])
        e0 = len(self.events)
        p0 = len(self.path)
        # range of the loop variable
        if loopvar in vs:
            s = ('car', self.names.get(loopvar) or loopvar, lid[1])
            up = inc is not None and (inc.get('k') == 'un' and inc['op'] == '++' or inc.get('k') == 'bin' and inc['op'] == '+=')
            body_changes = any(d == loopvar for d in self.targets([body])[0])
            if up and not body_changes:
                self.lower[s] = rec['pre'][loopvar]
            if inc is None and not body_changes:
                self.upper[s] = rec['pre'][loopvar]
        rec['start'] = e0
        def run():
            self.nest = rec['nest'] + [rec]
            start()
            rec['e_body'] = len(self.events)
            if not post and cond is not None:
                if not self.cond(cond):
                    raise Dead()
            rec.setdefault('guard', None)
            self.bodystart = len(self.path)
            try:
                self.stmt(body)
            except Cnt:
                pass
            if inc is not None:
                self.val(inc)
            if post and cond is not None:
                rec_c = self.cond(cond)
                self.events.append(dict(op='again', on=rec_c, path=list(self.path)))
        rec['syms'] = syms
        res = self.paths(run)
        self.nest = rec['nest']
        rec['guarded'] = p0
        for r in res:
            upd = {}
            for d in vs:
                v = r['env'].get(d)
                if v is not None and v != syms.get(d):
                    upd[d] = v
            f = {}
            if this in r['H'] if this is not None else False:
                for k in fpre:
                    v = r['H'][this]['f'][k]
                    if v != ('car', k, lid[1]):
                        f[k] = v
            rec['paths'].append(dict(out=r['out'], path=r['path'][p0:], events=[e for e in r['events'][e0:] if e['op'] != 'havoc'], upd=upd, fupd=f, val=r['val']))
        if loopvar is None and cond is not None and not post:      # a while loop counting a variable
            for d, sy in syms.items():
                ends = [p for p in rec['paths'] if p['out'] == 'end']
                st = {ladd(p['upd'].get(d, sy), sy, -1) for p in ends}
                if len(st) == 1 and const(aslin(next(iter(st)))) in (1, -1) and all(p['path'] and any(x == sy for x, _ in (p['path'][0][0][1][2] if p['path'][0][0][0] in ('pos', 'zero') else ())) for p in ends):
                    rec['loopvar'] = d
        self.records.append(rec)
        # after the loop
        self.env = outer
        for a in {x: 1 for x in arrs}:
            self.bump(a)
        for d in vs:
            if outer[d][0] == 'ref':
                self.store(outer[d][1], ('post', self.names.get(d) or d, lid[1]))
            else:
                self.env[d] = ('post', self.names.get(d) or d, lid[1])
            rec.setdefault('post', {})[d] = ('post', self.names.get(d) or d, lid[1])
        for k in fpre:
            self.H[this]['f'][k] = ('post', k, lid[1])
        self.events.append(dict(op='loop', on=rec, path=list(self.path)))
        for r in rec['paths']:
            if r['out'] == 'ret':
                self.exits.append(dict(kind='ret', val=r['val'], path=r['path'], loop=rec))
        if not post and cond is not None and not any(r['out'] in ('brk', 'ret') for r in rec['paths']):
            pass

    def s_for(self, s):
        outer = dict(self.env)
        if s.get('init'):
            self.stmt(s['init'])
        self.generic(s, s.get('init'), s.get('cond'), s.get('inc'), s['body'])
        for d in list(self.env):
            if d not in outer:
                del self.env[d]

    def s_while(self, s):
        self.generic(s, None, s['cond'], None, s['body'])

    def s_do(self, s):
        self.generic(s, None, s['cond'], None, s['body'], post=True)

    def s_forrange(self, s):
        o = self.val(s['range'])
        k = self.fresh('k')
        t = s['var'].get('t', '')
        ref = o[0] == 'A' and t.rstrip().endswith('&') and not t.startswith('const ')
        el = self.index(o, k) if o[0] == 'A' else ('elem', o, k)
        self.env[s['var']['d']] = ('ref', ('slot', o, k)) if ref else el
        self.generic(s, None, None, None, s['body'])
        self.records[-1]['over'] = o
        self.records[-1]['elem'] = el
        self.records[-1]['ksym'] = k
        self.env.pop(s['var']['d'], None)

    def s_omp(self, s):
        self.stmt(s['body'])


# ---- linear facts
def facts(I, path):
    """expressions known to be >= 0"""
    out = []
    for a, q in path:
        if a[0] == 'pos':
            g = a[1] if q else lin(-a[1][1] + 1, [(x, -k) for x, k in a[1][2]])
            out.append(ladd(g, lin(1), -1))
        if a[0] == 'zero' and q:
            out.append(a[1]); out.append(lmul(lin(-1), a[1]))
    for s, v in I.lower.items():
        out.append(ladd(s, v, -1))
    for s, v in I.upper.items():
        out.append(ladd(v, s, -1))
    return [aslin(x) for x in out]


def prove(I, e, path, unsigned=()):
    """e >= 0 follows from at most three linear facts"""
    fs = facts(I, path)
    seen = set()
    def trivially(x):
        return x[1] >= 0 and all(k >= 0 and a in unsigned for a, k in x[2])
    def go(x, d):
        x = aslin(x)
        if trivially(x):
            return True
        if d == 0 or (x, d) in seen:
            return False
        seen.add((x, d))
        bad = [a for a, k in x[2] if k < 0 or a not in unsigned]
        if not bad:
            return False
        a = bad[0]
        k = dict(x[2])[a]
        for f in fs:
            c = dict(f[2]).get(a, 0)
            if c and (c > 0) == (k > 0) and abs(k) % abs(c) == 0:
                if go(ladd(x, lmul(lin(k // c), f), -1), d - 1):
                    return True
        return False
    return go(e, 4)


def holds(path, env):
    """three-valued truth of the guards under an assignment of atoms: False when some guard is refuted, True when all are decided true"""
    from p25 import subst
    res = True
    for a, q in path:
        if a[0] in ('pos', 'zero'):
            e = aslin(sub_lin(a[1], env))
            if e[2]:
                res = None if res else res
                continue
            t = e[1] > 0 if a[0] == 'pos' else e[1] == 0
        elif a[0] == 'eqv':
            x, y = env.get(a[1], a[1]), env.get(a[2], a[2])
            if x == y:
                t = True
            elif (x[0] == 'enum' and y[0] == 'enum') or (const(aslin(x)) is not None and const(aslin(y)) is not None):
                t = x == y
            else:
                res = None if res else res
                continue
        else:
            res = None if res else res
            continue
        if t != q:
            return False
    return res


def sub_lin(e, env):
    out = lin(e[1])
    for a, k in e[2]:
        out = ladd(out, lmul(lin(k), env.get(a, a)))
    return aslin(out)
