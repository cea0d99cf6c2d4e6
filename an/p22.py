"""P22: orderings handed to sorting routines and ordered containers (comparator summaries decided over every arrangement of key values)."""
import itertools
import re
import bind
import core
from core import loc, bare

RULE = ('Each comparator is reduced to a boolean function of comparisons between a key of its first argument and the same key of its second; the function is then decided to be a strict weak order by '
        'enumerating every arrangement of the key values of three elements. A comparator which applies different keys to its two arguments, or changes state, is refused.')
ALG = {'sort': 2, 'stable_sort': 2, 'partial_sort': 3, 'nth_element': 3, 'is_sorted': 2, 'is_sorted_until': 2, 'max_element': 2, 'min_element': 2, 'minmax_element': 2, 'lower_bound': 3, 'upper_bound': 3,
       'equal_range': 3, 'binary_search': 3, 'merge': 5, 'inplace_merge': 3, 'includes': 4, 'set_difference': 5, 'set_intersection': 5, 'set_union': 5, 'make_heap': 2, 'sort_heap': 2, 'push_heap': 2, 'pop_heap': 2}
HET = {'lower_bound', 'upper_bound', 'equal_range', 'binary_search'}
CMP = {'<', '>', '<=', '>=', '==', '!='}


class No(Exception):
    pass


class Bad(Exception):
    pass


def strip(n):
    while n is not None and n['k'] in ('cast',) or n is not None and n['k'] == 'ctor' and len(n.get('args', [])) == 1 and 'lambda' in bare(n['t']):
        n = n['e'] if n['k'] == 'cast' else n['args'][0]
    return n


class Summary:
    """boolean tree of a comparator: ('atom', op, x, y), ('pred', x), ('and'|'or', p, q), ('not', p), ('const', b), ('ite', c, p, q)"""

    def __init__(self, F, f, pa, pb, env=None):
        self.F, self.f, self.pa, self.pb = F, f, pa, pb
        self.own = set()

    def run(self, body):
        env = {self.pa: ('A',), self.pb: ('B',)}
        self.own = {self.pa, self.pb}
        r = self.block(body['c'] if body['k'] == 'block' else [body], env)
        if r is None:
            raise No('a path returns nothing')
        return r

    def block(self, ss, env):
        for i, s in enumerate(ss):
            k = s['k']
            if k == 'decl':
                for v in s.get('vars') or s.get('c') or s.get('ds') or []:
                    self.var(v, env)
            elif k == 'var':
                self.var(s, env)
            elif k == 'return':
                return self.boolean(s['e'], env)
            elif k == 'if':
                c = self.boolean(s['cond'], env)
                t = self.block(self.stm(s['then']), dict(env))
                e = s.get('else')
                u = self.block(self.stm(e), dict(env)) if e is not None else None
                rest = None
                if t is None or u is None:
                    rest = self.block(ss[i + 1:], env)
                return ('ite', c, t if t is not None else rest, u if u is not None else rest)
            elif k == 'block':
                r = self.block(s['c'], env)
                if r is not None:
                    return r
            elif k == 'null':
                pass
            else:
                self.effect(s, env)
        return None

    def stm(self, s):
        return s['c'] if s['k'] == 'block' else [s]

    def var(self, v, env):
        self.own.add(v['d'])
        env[v['d']] = self.term(v['init'], env) if v.get('init') is not None else ('obj', ())

    def effect(self, s, env):
        x = s
        while x['k'] == 'cast':
            x = x['e']
        if x['k'] == 'call' and 'obj' in x:
            o = strip(x['obj'])
            if o['k'] == 'ref' and o.get('d') in self.own and o.get('d') not in (self.pa, self.pb):
                args = [self.term(a, env) for a in x['args']]
                st = env.get(o['d'])
                slots = dict(st[1]) if st and st[0] == 'obj' else {}
                if x.get('fn') == 'set' and len(args) == 2 and args[0][0] == 'int':
                    slots[args[0][1]] = args[1]
                    env[o['d']] = ('obj', tuple(sorted(slots.items())))
                    return
        if x['k'] in ('bin', 'un') and (x['op'] in ('++', '--') or x['op'].endswith('=') and x['op'] not in CMP):
            t = x['e'] if x['k'] == 'un' else x['a']
            while t['k'] in ('cast', 'mem', 'idx'):
                t = t['e']
            if t['k'] == 'ref' and t.get('d') in self.own and t.get('d') not in (self.pa, self.pb):
                raise No('assignment to a local')
            raise Bad('changes ' + core.pp(t))
        if not any(y['k'] in ('call', 'un', 'bin') for y in core.walk(x)):
            return
        raise No('statement ' + core.pp(x)[:40])

    def boolean(self, n, env):
        n = strip(n)
        k = n['k']
        if k == 'bool' or k == 'int':
            return ('const', n['v'] not in (0, '0', False, 'false'))
        if k == 'un' and n['op'] == '!':
            return ('not', self.boolean(n['e'], env))
        if k == 'bin' and n['op'] in ('&&', '||'):
            return ('and' if n['op'] == '&&' else 'or', self.boolean(n['a'], env), self.boolean(n['b'], env))
        if k == 'cond':
            return ('ite', self.boolean(n['c'], env), self.boolean(n['a'], env), self.boolean(n['b'], env))
        if k == 'bin' and n['op'] in CMP:
            return ('atom', n['op'], self.term(n['a'], env), self.term(n['b'], env))
        if k == 'call' and n.get('opr') in CMP and len(n['args']) == 2:
            return ('atom', n['opr'], self.term(n['args'][0], env), self.term(n['args'][1], env))
        if k == 'ref' and n.get('d') in env and isinstance(env[n['d']], tuple) and env[n['d']][0] == 'B!':
            return env[n['d']][1]
        t = self.term(n, env)
        if t[0] == 'B!':
            return t[1]
        return ('pred', t)

    def term(self, n, env):
        n = strip(n)
        k = n['k']
        if k == 'ref':
            if n.get('d') in env:
                return env[n['d']]
            return ('ref', n.get('q') or n['n'], n.get('d') if n.get('dk') in ('local', 'param') else None)
        if k in ('int', 'bool', 'char', 'float', 'str'):
            return ('int', n.get('v', n.get('fv', n.get('s'))))
        if k == 'this':
            return ('this',)
        if k in ('un', 'bin') and (n['op'] in ('++', '--') or n['op'].endswith('=') and n['op'] not in CMP):
            self.effect(n, env)
            raise No('assignment inside an expression')
        if k == 'bin' and n['op'] in CMP or k == 'call' and n.get('opr') in CMP or k == 'bin' and n['op'] in ('&&', '||') or k == 'un' and n['op'] == '!':
            return ('B!', self.boolean(n, env))
        if k == 'mem':
            return ('mem', n['n'], self.term(n['e'], env))
        if k == 'idx':
            return ('idx', self.term(n['e'], env), self.term(n['i'], env))
        if k == 'bin':
            a, b = self.term(n['a'], env), self.term(n['b'], env)
            return ('bin', n['op'], a, b)
        if k == 'un':
            return ('un', n['op'], self.term(n['e'], env))
        if k == 'call':
            args = [self.term(a, env) for a in n['args']]
            if 'obj' in n:
                o = self.term(n['obj'], env)
                if o[0] == 'obj':
                    sl = dict(o[1])
                    if args and all(a[0] == 'int' and a[1] in sl for a in args):
                        return ('read', n.get('fn')) + tuple(sl[a[1]] for a in args)
                return ('call', n.get('fn') or n.get('q'), o) + tuple(args)
            fe = n.get('fe')
            return ('call', n.get('q') or n.get('fn') or n.get('opr') or (core.pp(fe) if fe else '?'),) + tuple(args)
        if k == 'ctor':
            args = [self.term(a, env) for a in n['args']]
            if len(args) == 1 and not bare(n['t']).startswith('brille::'):
                return args[0]
            return ('ctor', bare(n['t'])) + tuple(args)
        if k == 'cond':
            return ('cond', self.term(n['c'], env), self.term(n['a'], env), self.term(n['b'], env))
        if k == 'init':
            return ('list',) + tuple(self.term(a, env) for a in n['c'])
        if k == 'lambda':
            return ('lambda', n.get('f'))
        if k == 'sizeof':
            return ('int', 'sizeof')
        raise No('expression ' + k)


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def swap(t):
    if t == ('A',):
        return ('B',)
    if t == ('B',):
        return ('A',)
    if isinstance(t, tuple):
        return tuple(swap(x) for x in t)
    return t


def decide(s, het=False):
    """None when the summary is a strict weak order; a message otherwise"""
    keys, preds = [], []

    def norm(p):
        k = p[0]
        if k == 'const':
            return p
        if k == 'not':
            return ('not', norm(p[1]))
        if k in ('and', 'or'):
            return (k, norm(p[1]), norm(p[2]))
        if k == 'ite':
            return ('ite', norm(p[1]), norm(p[2]), norm(p[3]))
        if k == 'pred':
            t = p[1]
            a, b = mentions(t, ('A',)), mentions(t, ('B',))
            if a and b:
                if t[0] == 'call' and len(t) == 4 and re.search(r'(approx|equal|eq)', str(t[1])) and swap(t[2]) == t[3]:
                    x = t[2] if mentions(t[2], ('A',)) else t[3]
                    if x not in keys:
                        keys.append(x)
                    return ('cmp', '==', keys.index(x), True)
                if t[0] == 'call' and re.search(r'std::(less|greater)', str(t[1])) and len(t) >= 4 and swap(t[-2]) == t[-1]:
                    return norm(('atom', '<' if 'less' in t[1] else '>', t[-2], t[-1]))
                raise No('a joint function of both arguments')
            if not a and not b:
                raise No('a condition on neither argument')
            x = t if a else swap(t)
            if x not in preds:
                preds.append(x)
            return ('pred', preds.index(x), a)
        op, x, y = p[1:]
        xa, xb, ya, yb = mentions(x, ('A',)), mentions(x, ('B',)), mentions(y, ('A',)), mentions(y, ('B',))
        if xa and not xb and yb and not ya or xb and not xa and ya and not yb:
            if swap(x) != y:
                if opposite(x, y):
                    raise No('shifted keys')
                raise Bad('compares %s of one argument with %s of the other' % (show(x), show(y)))
            kx = x if xa else y
            if kx not in keys:
                keys.append(kx)
            return ('cmp', op, keys.index(kx), xa)
        if (xa or ya) and not (xb or yb) or (xb or yb) and not (xa or ya):
            return norm(('pred', ('B?', op, x, y)))
        if (xa and xb) != (ya and yb) and (xa or xb) and (ya or yb):
            raise Bad('compares %s with %s' % (show(x), show(y)))
        raise No('a joint function of both arguments')

    def opposite(x, y):
        return False

    e = norm(s)

    def val(p, u, v):
        k = p[0]
        if k == 'const':
            return p[1]
        if k == 'not':
            return not val(p[1], u, v)
        if k == 'and':
            return val(p[1], u, v) and val(p[2], u, v)
        if k == 'or':
            return val(p[1], u, v) or val(p[2], u, v)
        if k == 'ite':
            return val(p[2] if val(p[1], u, v) else p[3], u, v)
        if k == 'pred':
            return bool((u if p[2] else v)[len(keys) + p[1]])
        op, i, first = p[1:]
        x, y = (u[i], v[i]) if first else (v[i], u[i])
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]

    if len(keys) + len(preds) > 4:
        raise No('too many keys')
    els = list(itertools.product(*([range(3)] * len(keys) + [range(2)] * len(preds))))
    names = [show(k) for k in keys]
    for u in els:
        if val(e, u, u):
            return 'an element is before an equal one'
    for u, v in itertools.product(els, repeat=2):
        if val(e, u, v) and val(e, v, u):
            return 'two elements are each before the other'
    lt = {(u, v): val(e, u, v) for u in els for v in els}
    for u, v, w in itertools.product(els, repeat=3):
        if lt[u, v] and lt[v, w] and not lt[u, w]:
            return 'the order is not transitive'
        if not lt[u, v] and not lt[v, u] and not lt[v, w] and not lt[w, v] and (lt[u, w] or lt[w, u]):
            return 'elements that tie with a third do not tie with each other'
    if not any(lt.values()):
        return 'no element is ever before another'
    return None


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] in ('A', 'B') and len(t) == 1:
        return t[0].lower()
    if t[0] == 'mem':
        return show(t[2]) + '.' + t[1]
    if t[0] == 'call':
        return str(t[1]).split('::')[-1] + '(' + ', '.join(show(x) for x in t[2:]) + ')'
    if t[0] == 'ref':
        return str(t[1])
    if t[0] == 'int':
        return str(t[1])
    return t[0] + '(' + ', '.join(show(x) for x in t[1:]) + ')'


def comparator(F, f, n):
    """[(function, parameters, body)] of a comparator expression"""
    n = strip(n)
    for _ in range(8):
        if n['k'] == 'ref' and n.get('dk') == 'local' or n['k'] == 'ref' and n.get('d') is not None and n.get('dk') != 'param':
            v = next((x for x in core.walk(f['body']) if x['k'] == 'var' and x.get('d') == n['d']), None)
            if v is None or v.get('init') is None:
                break
            n = strip(v['init'])
        elif n['k'] == 'ctor' and len(n['args']) == 1:
            n = strip(n['args'][0])
        elif n['k'] == 'un' and n['op'] in ('&', '*'):
            n = strip(n['e'])
        else:
            break
    if n['k'] == 'lambda':
        if n.get('generic'):
            out = [(F.funcs[s], F.funcs[s]['params'], F.funcs[s]['body']) for s in n.get('specs', []) if s in F.funcs and F.funcs[s].get('body')]
            return out or None
        return [(f, n['params'], n['body'])]
    if n['k'] in ('ref',) and n.get('f') in F.funcs and F.funcs[n['f']].get('body'):
        g = F.funcs[n['f']]
        return [(g, g['params'], g['body'])]
    t = bare(n.get('t', ''))
    if t.startswith('std::less') or t.startswith('std::greater'):
        return []
    if n['k'] in ('ctor', 'zero', 'init', 'new'):
        return functor(F, t)
    return None


def functor(F, t):
    out = [(g, g['params'], g['body']) for g in F.funcs.values() if g.get('body') and g.get('fn') == 'operator()' and bare(g.get('cls') or '') == t and len(g['params']) == 2 and not g.get('dep')]
    return out or None


def one(C, F, what, where, key, cmp, het=False):
    for g, ps, body in cmp:
        if len(ps) != 2:
            C.undecided('comparator', what)
            continue
        try:
            r = decide(Summary(F, g, ps[0]['d'], ps[1]['d']).run(body))
            if r:
                C.bad('comparator', key, where, f'{what}: {r}')
            else:
                C.instance('comparator', what)
        except Bad as e:
            if het and bare(ps[0]['t']) != bare(ps[1]['t']):
                C.instance('comparator', what)
            else:
                C.bad('comparator', key, where, f'{what}: the comparator {e}')
        except No as e:
            C.undecided('comparator', f'{what}: {e}')


def run(tier):
    C = core.Check('P22', tier, RULE)
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    seen = set()
    ops = {}
    for f in F.best():
        if f['file'].startswith(core.REPO + '/') and f.get('fn') == 'operator<' and f.get('body') and not f.get('dep'):
            ops.setdefault(f.get('csn') or '', []).append(f)
    for f in F.best():
        if f.get('body') is None or not f['file'].startswith(core.REPO + '/') or '/lib/' in f['file'] or f.get('dep'):
            continue
        for n in core.walk(f['body']):
            if n['k'] != 'call' or 'obj' in n or not (n.get('q') or '').startswith('std::'):
                continue
            fn = core.strip_t(n['q']).split('::')[-1]
            if fn not in ALG:
                continue
            args = n['args']
            m = ALG[fn]
            if args and 'execution' in bare(args[0].get('t', '')):
                args = args[1:]
            where = loc(f, n)
            what = f'{f["fn"]}: {fn} at {where.rsplit(":", 1)[0]}'
            key = f'{f["fn"]}|{fn}'
            if len(args) <= m:
                e = element(args[0].get('t', '')) if args else ''
                if (where, 'plain') in seen:
                    continue
                seen.add((where, 'plain'))
                mine = [g for g in F.funcs.values() if g.get('fn') == 'operator<' and g.get('body') and g['file'].startswith(core.REPO + '/') and g.get('csn') and e.split('<')[0].endswith(g['csn'])]
                if mine:
                    for g in mine:
                        member(C, F, g, what, where, key)
                else:
                    C.instance('natural', f'{what} of {e}')
                continue
            if (where, f['f'] if f.get('tmpl') else '') in seen:
                continue
            seen.add((where, f['f'] if f.get('tmpl') else ''))
            cmp = comparator(F, f, args[m])
            if cmp is None:
                C.undecided('comparator', what)
            elif not cmp:
                C.instance('natural', what)
            else:
                one(C, F, what, where, key, cmp, fn in HET)
    # ordered containers with an ordering of their own
    done = set()
    for f in F.best():
        if f.get('body') is None or not f['file'].startswith(core.REPO + '/') or f.get('dep'):
            continue
        for n in core.walk(f['body']):
            if n['k'] == 'var' and n.get('t'):
                container(C, F, bare(n['t']), loc(f, n), done)
    for r in F.records.values():
        for x in r.get('fields', []) or []:
            container(C, F, bare(x.get('t', '')), r.get('q', '?'), done)
    for gs in ops.values():
        for g in gs:
            member(C, F, g, 'operator< of ' + (g.get('csn') or g['params'][0]['t']), loc(g), 'operator<|' + (g.get('csn') or ''))
    C.assumptions.append('a function of one element called twice in one comparison returns the same value (no element changes while it is sorted)')
    C.floor('comparator', 6)
    C.floor('natural', 4)
    return C.finish()


def member(C, F, g, what, where, key):
    try:
        if g.get('csn') and len(g['params']) == 1:
            s = MemberSummary(F, g, None, g['params'][0]['d'])
        else:
            s = Summary(F, g, g['params'][0]['d'], g['params'][1]['d'])
        r = decide(s.run(g['body']))
        if r:
            C.bad('comparator', key, where, f'{what}: {r}')
        else:
            C.instance('comparator', what)
    except Bad as e:
        C.bad('comparator', key, where, f'{what}: {e}')
    except No as e:
        C.undecided('comparator', f'{what}: {e}')


class MemberSummary(Summary):
    def term(self, n, env):
        n = strip(n)
        if n['k'] == 'this':
            return ('A',)
        return super().term(n, env)


def element(t):
    m = re.search(r'__normal_iterator<(?:const )?(.*?) ?\*', t)
    if m:
        return bare(m.group(1))
    return bare(t).rstrip('*').strip()


def container(C, F, t, where, done):
    m = re.match(r'^std::(set|multiset|map|multimap|priority_queue)<(.*)>$', t)
    if not m or t in done:
        return
    done.add(t)
    args = bind.split_types(m.group(2))
    i = 1 if 'set' in m.group(1) else 2
    if len(args) <= i:
        C.instance('natural', f'{t}')
        return
    c = args[i]
    if c.startswith('std::less') or c.startswith('std::greater'):
        C.instance('natural', f'{t}')
        return
    cmp = functor(F, c)
    if cmp is None:
        C.undecided('comparator', t)
    else:
        one(C, F, t, where, 'container|' + c, cmp)
