"""P20: copies, moves and conversions carry over every part of an object (member transfer over summaries; moved-from dataflow)."""
import itertools
import re
import core
import summ
import terms as T
import tval
from core import loc, bare
from p10 import Operand, kind, use_count, readobj
from terms import num

RULE = ('Every hand-written copy or move constructor and assignment is summarised: each data member (base parts included) of the destination ends equal to the same member of the source, whatever the source holds. '
        'Every converting constructor or assignment between array types is summarised on operands of several storage layouts: the shape and every element of the result are those of the source. '
        'After an object has been handed to a move constructor or move assignment no path uses it before it is given a new value. No class stores a function object that captured `this` while its copies keep calling the original.')


def deref_bases(F, rec, seen=None):
    """data members of a record including those of its bases"""
    out = [(m['n'], m['t']) for m in rec['fields'] if not m.get('static')]
    for b in rec.get('bases', []):
        q = bare(b['t'] if isinstance(b, dict) else b)
        r = next((r for r in F.records.values() if r.get('q') == q or 'brille::' + q == r.get('q')), None)
        if r is None:
            rs = [r for r in F.records.values() if r.get('sn', '').split('::')[-1] == q.split('<')[0].split('::')[-1] and r['fields']]
            r = rs[0] if rs else None
        if r is not None:
            out += deref_bases(F, r)
    return out


def records(F):
    by = {}
    for r in F.records.values():
        by.setdefault(r.get('sn'), []).append(r)
    return by


def transfer(C, F):
    by = records(F)
    seen = set()
    for f in sorted(F.concrete(), key=lambda f: (f['file'], f['l'], f['cls'] if f.get('csn') else '')):
        if not f.get('csn') or f.get('body') is None or f.get('defaulted') or f.get('implicit') or len(f['params']) != 1:
            continue
        if not (f.get('ctor') or f['fn'] == 'operator='):
            continue
        p = f['params'][0]
        if p['t'].rstrip().endswith('*') or bare(p['t']) != bare(f['cls']) and bare(p['t']).replace('brille::', '') != bare(f['cls']).replace('brille::', ''):
            ptr = re.sub(r'\s*\*$', '', p['t'])
            if not (p['t'].endswith('*') and bare(ptr) == bare(f['cls'])):
                continue
        name = f['csn'].split('::')[-1]
        recs = [r for r in by.get(f['csn'], []) if r.get('q') == f['cls']] or [r for r in by.get(f['csn'], []) if r['fields']] or by.get(f['csn'], [])
        if not recs or (f['file'], f['l']) in seen:
            continue
        seen.add((f['file'], f['l']))
        what = '%s(%s)' % ('%s::%s' % (name, f['fn']), p['t'].replace('brille::', ''))
        E = summ.Eval(F, unroll=8, inline_depth=8, budget=60000)
        E.inline_val = True
        E.hook = last
        S = summ.State()
        src = ('var', 'src')
        try:
            arg = ('addr', src) if p['t'].endswith('*') else src
            r = E.function(f, [arg], this=('var', 'self'), state=S)
            fin = r.final
            if fin is None:
                C.undecided('members', what); continue
        except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
            C.undecided('members', '%s: %s' % (what, str(e)[:60])); continue
        for m, t in deref_bases(F, recs[0]):
            got = final(E.read(('fld', ('var', 'self'), m), fin))
            want = ('fld', src, m)
            w = '%s %s' % (what, m)
            if T.canon(got) == T.canon(want) or same_list(E, got, want, fin):
                C.instance('members', w)
            elif got == ('fld', ('var', 'self'), m) or got[0] == 'uninit':
                if f.get('ctor') and t and default_rebuilt(t):
                    C.undecided('members', w)
                else:
                    C.bad('members', '%s|%s|%s' % (name, f['fn'], m), loc(f), '%s leaves %s as it was%s' % (what, m, ' before anything was assigned to it' if f.get('ctor') else ''))
            elif T.has_opaque(got) or T.has(got, lambda x: x[0] == 'call') and T.has(got, lambda x: x == src):
                C.undecided('members', '%s: %s' % (w, T.show(got)[:50]))
            else:
                C.bad('members', '%s|%s|%s' % (name, f['fn'], m), loc(f), '%s sets %s to %s' % (what, m, T.show(got)[:80]))


def default_rebuilt(t):
    return False


def last(E, q, fn, n, args, s):
    """assignment between two objects of one class is a copy: the operators written by hand are judged where they are written"""
    if n.get('opr') == '=' and len(args) == 2 and n.get('pt') and bare(n['pt'][-1]) == bare(args[0]['t']):
        v, l = E.rv(args[1], s), E.lvalue(args[0], s)
        if l is not None:
            E.write(l, v, s)
            return l
    return None


def final(v):
    """the value when source and destination are two objects"""
    if v[0] == 'ite' and v[1][0] == 'cmp' and v[1][1] in ('eq', 'ne') and v[1][2][0] == v[1][3][0] == 'addr':
        return final(v[3] if v[1][1] == 'eq' else v[2])
    if v[0] == 'ite' and v[2] == v[3]:
        return final(v[2])
    if v[0] == 'ite':
        a, b = final(v[2]), final(v[3])
        return a if a == b else ('ite', v[1], a, b)
    return v


def same_list(E, got, want, S):
    if got[0] in ('list',):
        return all(T.canon(x) == T.canon(('at', want, num(i))) for i, x in enumerate(got[1:]))
    if got[0] == 'ptr' and got[2] == T.ZERO and got[1] == want:
        return True
    return False


LAYOUTS = [('row', 4, 0), ('row', 3, 2), ('col', 1, 0), ('row', 0, 0)]


def elements(C, F):
    """Array <- Array2, Array2 <- Array, element type changes, lattice vectors <- lattice vectors."""
    seen = set()
    for f in sorted(F.concrete(), key=lambda f: (f['file'], f['l'])):
        if not f.get('csn') or f.get('body') is None or len(f['params']) != 1 or not (f.get('ctor') or f['fn'] == 'operator='):
            continue
        dk, de = kind(f['cls'])
        sk, se = kind(f['params'][0]['t'])
        if dk not in ('Array', 'Array2', 'LVec') or sk not in ('Array', 'Array2', 'LVec') or '*' in f['params'][0]['t']:
            continue
        key = (f['file'], f['l'], dk, de, sk, se)
        if key in seen:
            continue
        seen.add(key)
        shapes = [(2, 3), (1, 3)] + ([(2, 1), (3, 2)] if 'LVec' not in (dk, sk) else []) + ([(2, 2, 2), (3,)] if sk == 'Array' and dk in ('Array', 'Array2') else [])
        for lo, sh in itertools.product(LAYOUTS, shapes):
            od, shift, pad = lo
            what = '%s<%s> from %s<%s> %s, %s' % (dk, de, sk, se, 'x'.join(map(str, sh)), 'row order' if lo in (LAYOUTS[0], LAYOUTS[3]) else 'a strided view' if lo == LAYOUTS[1] else 'column order')
            E = summ.Eval(F, unroll=24, inline_depth=14, budget=300000)
            E.objects = True
            E.inline_val = True
            E.hook = use_count
            S = summ.State()
            src = Operand(sk, 'b', list(sh), od, shift, pad)
            S.st[('var', 'arg0')] = src.rec
            if not f.get('ctor'):
                S.st[('var', 'self')] = Operand(dk, 'a', [3, 3], 'row', 3, 0).rec
            try:
                r = E.function(f, [('var', 'arg0')], this=('var', 'self'), state=S)
                if r.final is None:
                    C.undecided('elements', what); continue
                fin = r.final
                g = ('rec',) + tuple((k, E.read(('fld', ('var', 'self'), k), fin)) for k in ('_data', '_num', '_shift', '_shape', '_stride', '_own', '_mutable'))
                o = readobj(E, fin, g, dk)
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
                C.undecided('elements', '%s: %s' % (what, str(e)[:60])); continue
            if o is None:
                C.undecided('elements', what + ': result'); continue
            shape, el, gg = o
            want = list(sh)
            if dk == 'Array2' and sk == 'Array':
                want = [sh[0], 1] if len(sh) == 1 else [sh[0], int(__import__('math').prod(sh[1:]))]
            key = '%s<-%s' % (dk, sk)
            if shape != want:
                C.bad('elements', key, loc(f), '%s has the shape %s' % (what, shape)); break
            ok = True
            for i, s in enumerate(src.subs()):
                d = s if len(want) == len(sh) else ((s[0], 0) if len(sh) == 1 else (s[0], lin(s[1:], sh[1:])))
                v, w = el(d), src.at(s)
                if v != w and strip(v) != w:
                    if T.has_opaque(v):
                        ok = None; break
                    C.bad('elements', key, loc(f), '%s: the element at (%s) is %s' % (what, ', '.join(map(str, d)), T.show(v)[:60])); ok = False; break
            if ok is None:
                C.undecided('elements', what)
            if ok is False:
                break
            if ok:
                C.instance('elements', what)


def lin(s, sh):
    r = 0
    for a, b in zip(s, sh):
        r = r * b + a
    return r


def strip(v):
    while v[0] in ('wrap', 'trunc', 'cast') or v[0] == 'call' and len(v) == 3 and str(v[1]).startswith(('trunc', 'cast')):
        v = v[2] if len(v) > 2 else v[1]
    return v


# ---------------------------------------------------------------- moved-from objects
def is_move(n):
    return n.get('k') == 'call' and summ.strip_t(n.get('q') or '') == 'std::move' and len(n['args']) == 1


def place(n):
    """(declaration, member path) of an expression naming an object or a part of it"""
    path = []
    while True:
        k = n.get('k')
        if k == 'cast':
            n = n['e']
        elif k == 'mem':
            path.append(n['n'])
            n = n['e']
        elif k == 'ref' and n.get('dk') in ('local', 'param'):
            return (n['d'],) + tuple(reversed(path))
        elif k == 'this':
            return ('this',) + tuple(reversed(path)) if path else None
        else:
            return None


def overlap(a, b):
    return a[:len(b)] == b[:len(a)]


FRESH = {'clear', 'assign', 'reset', 'resize', 'swap'}


class Moves:
    """forward may-dataflow over one body: the places that may have been moved from; a later use is reported"""

    def __init__(self):
        self.sites, self.bad = {}, []
        self.brk, self.cont = [], []

    def join(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        return {**a, **b}

    def use(self, p, n, s):
        for m in s:
            if overlap(p, m):
                self.bad.append((s[m], n))

    def fresh(self, p, s):
        for m in [m for m in s if m[:len(p)] == p]:
            del s[m]

    def consume(self, args, pts, n, s):
        for a, t in zip(args, pts):
            while a.get('k') == 'cast':
                a = a['e']
            if is_move(a) and t.endswith('&&'):
                p = place(a['args'][0])
                if p is not None and not plain(a['args'][0]['t']):
                    self.sites[id(a)] = (a, n)
                    s[p] = a

    def many(self, ns, s):
        for n in ns:
            s = self.go(n, s)
        return s

    def go(self, n, s):
        if n is None or s is None:
            return s
        k = n.get('k')
        p = place(n) if k in ('ref', 'mem') else None
        if p is not None:
            self.use(p, n, s)
            return s
        if k == 'call' and is_move(n):
            p = place(n['args'][0])
            if p is not None:
                self.use(p, n, s)
                return s
        if k in ('call', 'ctor'):
            args, pts = n['args'], n.get('pt') or []
            if n.get('opr') == '=' and len(args) == 2:
                s = self.go(args[1], s)
                p = place(args[0])
                if s is None:
                    return s
                self.consume(args[1:], pts[-1:], n, s)
                if p is not None:
                    self.fresh(p, s)
                    return s
                return self.go(args[0], s)
            if n.get('fn') in FRESH and n.get('obj') and place(n['obj']):
                s = self.many(args, s)
                self.fresh(place(n['obj']), s)
                return s
            s = self.many([n.get('fe'), n.get('obj')] + args, s)
            if s is not None:
                self.consume(args[len(args) - len(pts):] if len(args) >= len(pts) else args, pts, n, s)
            return s
        if k == 'bin' and n['op'] == '=':
            s = self.go(n['b'], s)
            p = place(n['a'])
            if p is not None and s is not None:
                self.fresh(p, s)
                return s
            return self.go(n['a'], s)
        if k == 'var':
            s = self.go(n.get('init'), s)
            if s is not None:
                self.fresh((n['d'],), s)
            return s
        if k == 'if':
            s = self.go(n.get('init'), s)
            s = self.go(n['cond'], s)
            if s is None:
                return s
            return self.join(self.go(n['then'], dict(s)), self.go(n.get('else'), dict(s)))
        if k == 'cond' or k == 'bin' and n['op'] in ('&&', '||'):
            s = self.go(n['c'] if k == 'cond' else n['a'], s)
            if s is None:
                return s
            if k == 'cond':
                return self.join(self.go(n['a'], dict(s)), self.go(n['b'], dict(s)))
            return self.join(dict(s), self.go(n['b'], dict(s)))
        if k in ('for', 'while', 'do', 'forrange'):
            s = self.go(n.get('init'), s) if k == 'for' else self.go(n.get('range'), s)
            if s is None:
                return s
            self.brk.append(None)
            out = dict(s)
            for _ in range(2):
                self.cont.append(None)
                if k != 'do':
                    s = self.go(n.get('cond'), s)
                    out = self.join(out, dict(s) if s is not None else None)
                if k == 'forrange' and s is not None and n.get('var'):
                    self.fresh((n['var'].get('d'),), s)
                s = self.go(n['body'], s)
                s = self.join(s, self.cont.pop())
                s = self.go(n.get('inc'), s)
                if k == 'do':
                    s = self.go(n.get('cond'), s)
                out = self.join(out, dict(s) if s is not None else None)
                if s is None:
                    break
            return self.join(out, self.brk.pop())
        if k == 'switch':
            s = self.go(n['cond'], s)
            if s is None:
                return s
            self.brk.append(dict(s))
            r = dict(s)
            for c in (n['body'].get('c') or [n['body']]):
                if c is not None and c.get('k') in ('case', 'default'):
                    r = self.join(r, dict(s))
                r = self.go(c, r)
            return self.join(r, self.brk.pop())
        if k in ('case', 'default'):
            return self.go(n.get('body'), s)
        if k in ('break', 'continue'):
            st = self.brk if k == 'break' else self.cont
            if st:
                st[-1] = self.join(st[-1], s)
            return None
        if k in ('return', 'throw'):
            self.go(n.get('e'), s)
            return None
        if k == 'try':
            t = self.go(n['body'], dict(s))
            for h in n['handlers']:
                t = self.join(t, self.go(h.get('body'), dict(s)))
            return t
        if k == 'lambda':
            for c in n.get('caps') or []:
                if isinstance(c, dict) and 'init' in c:
                    s = self.go(c['init'], s)
            for x in core.walk(n.get('body') or {}):
                p = place(x) if x.get('k') in ('ref', 'mem') else None
                if p is not None:
                    self.use(p, x, s)
            inner = Moves()
            inner.go(n.get('body'), {})
            self.sites.update(inner.sites)
            self.bad += inner.bad
            return s
        return self.many(list(core.kids(n)), s)


def plain(t):
    t = bare(t)
    return summ.isarith(t) or t.endswith('*') or t.startswith('std::array<') and summ.isarith(t[len('std::array<'):].split(',')[0])


def moved(C, F):
    """(declaration moved from) and a use that control can reach afterwards without a new value"""
    seen = set()
    for f in F.best():
        if f.get('body') is None:
            continue
        M = Moves()
        s = {}
        for i in f.get('inits', []):
            s = M.go(i.get('e'), s)
        M.go(f['body'], s if s is not None else {})
        for m, use in M.bad:
            n = name_of(m['args'][0])
            key = '%s|%s' % (f['sn'].split('::')[-1] if f.get('sn') else f['fn'], n)
            if (f['file'], f['l'], key) in seen:
                continue
            seen.add((f['file'], f['l'], key))
            C.bad('moved', key, loc(f, use), '%s uses %s after it was moved from' % (f['q'].split('<')[0], n))
        for a, n in M.sites.values():
            if not any(m is a for m, _ in M.bad):
                C.instance('moved', '%s line %s: std::move(%s)' % (f['q'], a['l'], name_of(a['args'][0])))


def name_of(n):
    while n.get('k') == 'cast':
        n = n['e']
    return '%s.%s' % (name_of(n['e']), n['n']) if n.get('k') == 'mem' else n.get('n', 'this')


# ---------------------------------------------------------------- captured this
def captures(C, F):
    by = records(F)
    for sn, rs in sorted(by.items(), key=lambda x: str(x[0])):
        for rec in rs:
            fm = [m['n'] for m in rec['fields'] if bare(m['t']).startswith('std::function')]
            if not fm:
                continue
            name = (sn or '').split('::')[-1]
            own = [f for f in F.funcs.values() if f.get('csn') == sn and f.get('body')]
            hit = None
            for f in own:
                for n in core.walk(f['body']):
                    if n.get('k') in ('bin', 'call') and (n.get('op') == '=' or n.get('opr') == '='):
                        l, r = (n['a'], n['b']) if n.get('k') == 'bin' else (n['args'][0], n['args'][1])
                        if l.get('k') == 'mem' and l['n'] in fm:
                            for lam in core.walk(r):
                                if lam.get('k') == 'lambda' and any(y.get('k') == 'this' for y in core.walk(lam.get('body') or {})):
                                    hit = (f, n, l['n'])
            copies = [f for f in own if (f.get('ctor') and len(f['params']) == 1 and bare(f['params'][0]['t']).split('<')[0] == sn)]
            if hit and not copies:
                C.bad('captures', name, loc(hit[0], hit[1]), '%s keeps in %s a function that captured this object; a copy of the object calls the function of the original' % (name, hit[2]))
            else:
                C.instance('captures', name)
            break


def run(tier):
    C = core.Check('P20', tier, RULE)
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + [u for u in core.all_units() if u.startswith('src/')])
    transfer(C, F)
    elements(C, F)
    moved(C, F)
    captures(C, F)
    C.floor('members', 60)
    C.floor('elements', 300)
    C.floor('moved', 60)
    C.floor('captures', 1)
    return C.finish()
