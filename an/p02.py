"""P02: exceptions thrown by workers reach the caller. Finite-state abstract interpretation of the exception guard
(count in {0,1,many} x stored pointer in {none, original, combined}), plus a protocol check of every user of the guard."""
import core
from core import loc, walk, walkp, pp

RULE = ('For each class holding a std::exception_ptr: every path of the capturing method runs under a lock, ends with a stored exception, cannot let an '
        'exception out, and stores the thrown one if it is the first; the runner calls its task inside a handler for every exception type and that handler '
        'captures; the rethrowing method throws the stored exception exactly when there is one. Every variable of such a class is shared by its parallel region, '
        'only runs tasks inside it and is rethrown unconditionally after it.')


class Give(Exception):
    pass


def strip(n):
    while n and n['k'] in ('cast', 'paren', 'tmp') or (n and n['k'] == 'ctor' and len(n['args']) == 1 and 'exception_ptr' in n.get('t', '')):
        n = n['args'][0] if n['k'] == 'ctor' else n['e']
    return n


class Guard:
    """Abstract interpreter. A state is (count, ptr, locked, env) ; outcomes are ('next'|'return'|'throw', state, thrown)."""

    def __init__(self, F, rec, C):
        self.F, self.rec, self.C = F, rec, C
        self.ptr = [f['n'] for f in rec['fields'] if 'exception_ptr' in f['t']][0]
        self.cnt = [f['n'] for f in rec['fields'] if f['t'].replace('std::', '') in ('size_t', 'unsigned long', 'int', 'unsigned int', 'long', 'bool') or 'atomic' in f['t']]
        self.mtx = [f['n'] for f in rec['fields'] if 'mutex' in f['t']]
        self.unlocked = []
        self.depth = 0

    def member(self, n):
        n = strip(n)
        if n and n['k'] == 'mem' and n['e']['k'] == 'this':
            return n['n']
        return None

    def touch(self, s, n):
        if not s['lock']:
            self.unlocked.append(n)

    # ---- expressions: value in {int set, 'null','orig','made','cur','rebind', None}; returns [(state, value)] or throw outcomes
    def stmt(self, n, s, cur):
        """-> list of (kind, state, thrown)"""
        if n is None:
            return [('next', s, None)]
        k = n['k']
        if k == 'block':
            live, out = [s], []
            for c in n['c']:
                nx = []
                for x in live:
                    for kind, y, t in self.stmt(c, x, cur):
                        (nx.append(y) if kind == 'next' else out.append((kind, y, t)))
                live = nx
            # a lock taken in this block is released at its end
            return [('next', dict(x, lock=s['lock']) if not n.get('fn_body') else x, None) for x in live] + [(kk, dict(x, lock=s['lock']), t) for kk, x, t in out]
        if k == 'decl':
            outs = [('next', s, None)]
            for v in n['c']:
                nx = []
                for kind, x, t in outs:
                    if kind != 'next':
                        nx.append((kind, x, t)); continue
                    ty = v.get('t', '')
                    if any(w in ty for w in ('unique_lock', 'lock_guard', 'scoped_lock')):
                        x = dict(x, lock=True)
                        nx.append(('next', x, None)); continue
                    if v.get('init') is None:
                        nx.append(('next', x, None)); continue
                    for kk, y, val in self.ev(v['init'], x, cur):
                        if kk == 'val':
                            y = dict(y, env=dict(y['env'], **{str(v['d']): val})); nx.append(('next', y, None))
                        else:
                            nx.append((kk, y, val))
                outs = nx
            return outs
        if k == 'if':
            out = []
            for st in ([n['init']] if n.get('init') else []):
                for kind, y, t in self.stmt(st, s, cur):
                    s = y
            for kk, y, val in self.cond(n['cond'], s, cur):
                if kk != 'val':
                    out.append((kk, y, val)); continue
                out += self.stmt(n.get('then') if val else n.get('else'), y, cur)
            return out
        if k == 'return':
            if n.get('e'):
                return [('return', y, None) if kk == 'val' else (kk, y, v) for kk, y, v in self.ev(n['e'], s, cur)]
            return [('return', s, None)]
        if k == 'try':
            out = []
            hs = n['handlers']
            catchall = any(h['t'] == '...' for h in hs)
            for kind, y, t in self.stmt(n['body'], s, cur):
                if kind != 'throw':
                    out.append((kind, y, t)); continue
                y = dict(y, lock=s['lock'])
                for h in hs:
                    out += self.stmt(h['body'], y, t)
                if not catchall:
                    out.append(('throw', y, t))
            return out
        if k in ('null', 'empty'):
            return [('next', s, None)]
        if k in ('while', 'for', 'do', 'forrange', 'switch', 'goto'):
            raise Give(k)
        return [('next', y, None) if kk == 'val' else (kk, y, v) for kk, y, v in self.ev(n, s, cur)]

    def cond(self, n, s, cur):
        n0 = n
        while n['k'] in ('cast', 'paren'):
            n = n['e']
        if n['k'] == 'un' and n['op'] == '!':
            return [(kk, y, (not v) if kk == 'val' else v) for kk, y, v in self.cond(n['e'], s, cur)]
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for kk, y, v in self.cond(n['a'], s, cur):
                if kk != 'val' or v == (n['op'] == '||'):
                    out.append((kk, y, v))
                else:
                    out += self.cond(n['b'], y, cur)
            return out
        # pointer tests
        def ptrish(x):
            return isinstance(x, str)
        if n['k'] == 'call' and n.get('fn') == 'operator bool' and n.get('obj'):
            return [(kk, y, (v != 'null') if kk == 'val' and ptrish(v) else v) if kk == 'val' and ptrish(v) else (kk, y, True if kk == 'val' else v)
                    for kk, y, v in self.ev(n['obj'], s, cur)]
        op, a, b = None, None, None
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '<=', '>', '>='):
            op, a, b = n['op'], n['a'], n['b']
        elif n['k'] == 'call' and n.get('opr') in ('==', '!='):
            op, a, b = n['opr'], n['args'][0], n['args'][1]
        if op:
            out = []
            for ka, ya, va in self.ev(a, s, cur):
                if ka != 'val':
                    out.append((ka, ya, va)); continue
                for kb, yb, vb in self.ev(b, ya, cur):
                    if kb != 'val':
                        out.append((kb, yb, vb)); continue
                    if ptrish(va) or ptrish(vb):
                        if op in ('==', '!=') and 'null' in (va, vb):
                            other = vb if va == 'null' else va
                            out.append(('val', yb, (other == 'null') == (op == '=='))); continue
                        out += [('val', yb, True), ('val', yb, False)]; continue
                    if va is None or vb is None:
                        out += [('val', yb, True), ('val', yb, False)]; continue
                    rs = set()
                    for p in va:
                        for q in vb:
                            rs.add({'==': p == q, '!=': p != q, '<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[op])
                    out += [('val', yb, r) for r in sorted(rs)]
            return out
        out = []
        for kk, y, v in self.ev(n, s, cur):
            if kk != 'val':
                out.append((kk, y, v))
            elif ptrish(v):
                out.append(('val', y, v != 'null'))
            elif v is None:
                out += [('val', y, True), ('val', y, False)]
            else:
                out += [('val', y, r) for r in sorted(set(bool(x) for x in v))]
        return out

    def inc(self, c):
        return frozenset(min(x + 1, 3) for x in c) | (frozenset([2, 3]) if any(x >= 2 for x in c) else frozenset())

    def ev(self, n, s, cur):
        n0 = n
        n = strip(n)
        k = n['k']
        if k in ('int', 'bool'):
            v = n['v']; v = {'true': 1, 'false': 0}.get(v, v)
            return [('val', s, frozenset([int(v)]))]
        if k == 'null' or (k == 'ctor' and 'exception_ptr' in n.get('t', '') and not n['args']) or k in ('nullptr', 'zero', 'gnunull'):
            return [('val', s, 'null')]
        if k == 'init' and 'exception_ptr' in n.get('t', ''):
            return [('val', s, 'null')] if not n['c'] else self.ev(n['c'][0], s, cur)
        m = self.member(n)
        if m == self.ptr:
            self.touch(s, n)
            return [('val', s, s['ptr'])]
        if m in self.cnt:
            self.touch(s, n)
            return [('val', s, s['cnt'])]
        if k == 'ref':
            return [('val', s, s['env'].get(str(n.get('d'))))]
        if k == 'un' and n['op'] in ('++', '--'):
            if self.member(n['e']) in self.cnt:
                self.touch(s, n)
                if n['op'] == '--':
                    raise Give('decrement')
                new = self.inc(s['cnt'])
                return [('val', dict(s, cnt=new), s['cnt'] if n.get('post') else new)]
            return self.ev(n['e'], s, cur)
        if k == 'bin' and n['op'] in ('=', '+='):
            tgt = self.member(n['a'])
            out = []
            for kk, y, v in self.ev(n['b'], s, cur):
                if kk == 'val':
                    if tgt == self.ptr:
                        self.touch(y, n); y = dict(y, ptr=v if isinstance(v, str) else 'made')
                    elif tgt in self.cnt:
                        self.touch(y, n)
                        if n['op'] == '+=':
                            v = self.inc(y['cnt']) if v == frozenset([1]) else None
                        elif v is None and '+ 1' in pp(n['b']):
                            v = self.inc(y['cnt'])
                        if v is None:
                            raise Give('count arithmetic')
                        y = dict(y, cnt=v)
                    elif strip(n['a'])['k'] == 'ref':
                        y = dict(y, env=dict(y['env'], **{str(strip(n['a']).get('d')): v}))
                out.append((kk, y, v))
            return out
        if k == 'bin' and n['op'] == '+':
            outs = []
            for ka, ya, va in self.ev(n['a'], s, cur):
                for kb, yb, vb in self.ev(n['b'], ya, cur) if ka == 'val' else [(ka, ya, va)]:
                    if kb == 'val':
                        vb = self.inc(va) if vb == frozenset([1]) and isinstance(va, frozenset) else None
                    outs.append((kb, yb, vb))
            return outs
        if k == 'throw':
            if n.get('e') is None:
                return [('throw', s, cur)]
            return [('throw', s, 'made')]
        if k == 'call':
            fn = n.get('fn', '')
            q = n.get('q', '')
            if n.get('opr') == '=' and self.member(n['args'][0]) == self.ptr:
                out = []
                for kk, y, v in self.ev(n['args'][1], s, cur):
                    if kk == 'val':
                        self.touch(y, n); y = dict(y, ptr=v if isinstance(v, str) else 'made')
                    out.append((kk, y, v))
                return out
            if fn == 'current_exception':
                return [('val', s, cur or 'null')]
            if fn == 'make_exception_ptr':
                return [('val', s, 'made')]
            if fn in ('move', 'exchange', 'forward') and n['args']:
                out = []
                for kk, y, v in self.ev(n['args'][0], s, cur):
                    if fn == 'exchange' and self.member(n['args'][0]) == self.ptr:
                        y = dict(y, ptr='null')
                    out.append((kk, y, v))
                return out
            if fn == 'rethrow_exception':
                out = []
                for kk, y, v in self.ev(n['args'][0], s, cur):
                    out.append(('throw', y, v if isinstance(v, str) else 'made') if kk == 'val' else (kk, y, v))
                return out
            if fn == 'lock' and n.get('obj') is not None and self.member(n['obj']) in self.mtx:
                return [('val', dict(s, lock=True), None)]
            if fn == 'unlock':
                return [('val', dict(s, lock=False), None)]
            F = self.F.funcs.get(n.get('f'))
            if F and F.get('csn') == self.rec_sn and n.get('obj', {}).get('k') == 'this' and self.depth < 5:
                self.depth += 1
                out = []
                for kind, y, t in self.method(F, s, cur):
                    out.append(('throw', y, t) if kind == 'throw' else ('val', y, None))
                self.depth -= 1
                return out
            fe = strip(n['fe']) if n.get('fe') else None
            callee = fe or (strip(n['args'][0]) if n.get('opr') == '()' and n['args'] else None) or (strip(n['obj']) if n.get('obj') and fn == 'operator()' else None)
            if fn == 'invoke' and n['args']:
                callee = strip(n['args'][0])
            while callee is not None and callee['k'] == 'call' and callee.get('fn') in ('move', 'forward'):
                callee = strip(callee['args'][0])
            if callee is not None and callee['k'] == 'ref' and callee.get('dk') == 'param':
                s2 = dict(s, ran=s['ran'] + 1, lock_at_run=s['lock'])
                return [('val', s2, None), ('throw', s2, 'task')]
        # anything else: evaluate children for their effects
        outs = [('val', s, None)]
        for c in core.kids(n):
            if 'k' not in c or c['k'] in ('lambda',):
                continue
            nx = []
            for kk, y, v in outs:
                nx += self.ev(c, y, cur) if kk == 'val' else [(kk, y, v)]
            outs = nx
        return [(kk, y, None if kk == 'val' else v) for kk, y, v in outs]

    @property
    def rec_sn(self):
        return core.strip_t(self.rec['q'])

    def method(self, fn, s, cur):
        body = fn['body']
        inner = dict(s, env={})
        return [(kind, dict(y, env=s['env'], lock=s['lock']), t) for kind, y, t in self.stmt(body, inner, cur)]


def init_state(c, p):
    return dict(cnt=frozenset(c), ptr=p, lock=False, env={}, ran=0, lock_at_run=False)


def run(tier):
    C = core.Check('P02', tier, RULE)
    F = C.facts(['d_util.cpp', 'd_grid.cpp'])
    recs = [r for (q, dep), r in F.records.items() if not dep and r['file'].startswith(core.REPO)
            and any('exception_ptr' in f['t'] and not f['t'].startswith('std::vector') for f in r.get('fields', []))]
    C.assumptions.append('messages of combined errors are built with stream operations that do not throw')
    if not recs:
        if any('exception_ptr' in f['t'] for r in F.records.values() for f in r.get('fields', [])):
            C.undecided('guard', 'exception pointers are kept in a container'); C.instance('guard', 'container')
            return C.finish()
        raise core.Broken('no class with an exception_ptr found')
    gnames = set()
    for rec in recs:
        q = core.strip_t(rec['q']); gnames.add(q)
        ms = [f for f in F.funcs.values() if f.get('csn') == q and f.get('body') and not f.get('ctor') and not f.get('dtor')]
        ms = [f for f in ms if not f.get('dep')] + [f for f in ms if f.get('dep') and not any(g['sn'] == f['sn'] and not g.get('dep') for g in ms)]

        def uses(f, name):
            return any(x.get('fn') == name for x in walk(f['body']))
        for f in ms:
            G = Guard(F, rec, C)
            calls_param = any(x['k'] == 'ref' and x.get('dk') == 'param' and x.get('pi') == 0 for x in walk(f['body'])) and len(f['params']) >= 1
            try:
                if calls_param:
                    for c, p in (((0,), 'null'), ((1,), 'orig'), ((2, 3), 'made')):
                        outs = G.method(f, init_state(c, p), None)
                        C.instance('runner', '%s from count %s: %d outcomes' % (loc(f), c, len(outs)))
                        if any(y['ran'] == 0 for kind, y, t in outs):
                            C.bad('runner', f['sn'] + '|skip', loc(f), '%s has a path on which the task is not run' % f['sn'])
                        if any(y['ran'] > 1 for kind, y, t in outs):
                            C.bad('runner', f['sn'] + '|twice', loc(f), '%s has a path on which the task is run twice' % f['sn'])
                        if any(kind == 'throw' for kind, y, t in outs):
                            C.bad('runner', f['sn'] + '|escape', loc(f), 'an exception thrown by the task can leave %s (no handler for every type, or the handler throws)' % f['sn'])
                        if any(y['lock_at_run'] for kind, y, t in outs):
                            C.bad('runner', f['sn'] + '|lock', loc(f), '%s holds the lock while the task runs' % f['sn'])
                        ends = [y for kind, y, t in outs if kind != 'throw']
                        ok = any(y['ptr'] == 'task' for y in ends) if p == 'null' else True
                        if not ok:
                            C.bad('runner', f['sn'] + '|drop', loc(f), 'a first exception thrown by the task is not stored by %s' % f['sn'])
                        grew = [y for y in ends if y['cnt'] != frozenset(c)]
                        if G.cnt and c != (2, 3) and not grew:
                            C.bad('runner', f['sn'] + '|count', loc(f), '%s does not count a thrown exception' % f['sn'])
                        if any(y['ptr'] == 'null' for y in ends) and p != 'null':
                            C.bad('runner', f['sn'] + '|lost', loc(f), '%s can drop an exception stored before' % f['sn'])
                elif uses(f, 'current_exception') and writes(f, G):
                    for c, p in (((0,), 'null'), ((1,), 'orig'), ((2, 3), 'made')):
                        outs = G.method(f, init_state(c, p), 'task')
                        C.instance('capture', '%s from count %s: %d outcomes' % (loc(f), c, len(outs)))
                        if any(kind == 'throw' for kind, y, t in outs):
                            C.bad('capture', f['sn'] + '|escape', loc(f), '%s can let an exception out while storing (a rethrown exception of another type is not caught)' % f['sn'])
                        for kind, y, t in outs:
                            if kind == 'throw':
                                continue
                            if y['ptr'] == 'null' or (c == (0,) and y['ptr'] != 'task'):
                                C.bad('capture', f['sn'] + '|store', loc(f), '%s has a path that does not keep the current exception' % f['sn'])
                            if G.cnt and not (min(y['cnt']) > min(c) or c == (2, 3)):
                                C.bad('capture', f['sn'] + '|count', loc(f), '%s has a path that does not count the exception' % f['sn'])
                            if G.cnt and c == (0,) and y['cnt'] != frozenset([1]):
                                C.bad('capture', f['sn'] + '|count', loc(f), '%s counts one exception as %s' % (f['sn'], sorted(y['cnt'])))
                    if G.unlocked:
                        C.bad('capture', f['sn'] + '|lock', loc(f, G.unlocked[0]), '%s touches the stored exception or its count without holding the lock' % f['sn'])
                elif uses(f, 'rethrow_exception'):
                    for c, p in (((0,), 'null'), ((1,), 'orig'), ((2, 3), 'made')):
                        outs = G.method(f, init_state(c, p), None)
                        C.instance('rethrow', '%s from count %s: %d outcomes' % (loc(f), c, len(outs)))
                        for kind, y, t in outs:
                            if p == 'null' and kind == 'throw':
                                C.bad('rethrow', f['sn'] + '|none', loc(f), '%s throws although nothing was stored' % f['sn'])
                            if p != 'null' and kind != 'throw':
                                C.bad('rethrow', f['sn'] + '|swallow', loc(f), '%s has a path on which a stored exception is not thrown (%s)' % (f['sn'], 'one' if p == 'orig' else 'several'))
                            if p == 'orig' and kind == 'throw' and t != 'orig':
                                C.bad('rethrow', f['sn'] + '|type', loc(f), '%s replaces a single stored exception by another' % f['sn'])
                            if kind == 'throw' and t == 'null':
                                C.bad('rethrow', f['sn'] + '|null', loc(f), '%s rethrows an empty exception pointer' % f['sn'])
            except Give as e:
                C.undecided('guard', '%s: %s' % (f['sn'], e))
                C.instance('capture', 'undecided ' + f['sn'])
    # --- users
    for f in F.best():
        if not f.get('body') or not f['file'].startswith(core.REPO):
            continue
        vs = [v for v in walk(f['body']) if v['k'] == 'var' and core.bare(v.get('t', '')) in gnames]
        for v in vs:
            d = v['d']
            runs, re_, regions = [], [], []
            for n, ps in walkp(f['body']):
                if n['k'] == 'var' and n.get('d') == d:
                    decl_in = [p for p in ps if p['k'] == 'omp' and 'parallel' in p['dir']]
                    if decl_in:
                        C.bad('user', '%s|private' % f['sn'], loc(f, n), 'the exception guard %s is local to the parallel region' % v['n'])
                if n['k'] == 'omp' and 'parallel' in n['dir']:
                    for cl in n['clauses']:
                        if cl['n'] in ('private', 'firstprivate', 'lastprivate') and any(x.get('d') == d for x in cl['vars']):
                            C.bad('user', '%s|private' % f['sn'], loc(f, n), 'the exception guard %s is %s in the parallel region' % (v['n'], cl['n']))
                if n['k'] == 'call':
                    o = n.get('obj')
                    o = strip(o) if o else None
                    if n.get('fe') and n['fe']['k'] == 'mem':
                        o = strip(n['fe']['e'])
                    if n.get('fe') and n['fe']['k'] == 'x:UnresolvedMemberExpr' and n['fe'].get('c'):
                        o = strip(n['fe']['c'][0])
                    if o is not None and o['k'] == 'ref' and o.get('d') == d:
                        nm = n.get('fn') or n['fe'].get('n')
                        inside = [p for p in ps if p['k'] == 'omp' and 'parallel' in p['dir']]
                        if nm == 'run':
                            runs.append((n, ps, inside))
                        elif nm == 'rethrow':
                            re_.append((n, ps, inside))
            C.instance('user', '%s in %s: %d run, %d rethrow' % (v['n'], loc(f), len(runs), len(re_)))
            if runs and not re_:
                C.bad('user', '%s|norethrow' % f['sn'], loc(f, v), '%s stores exceptions in %s but never rethrows them' % (f['sn'], v['n']))
            for n, ps, inside in re_:
                if inside:
                    C.bad('user', '%s|inside' % f['sn'], loc(f, n), '%s rethrows inside the parallel region' % f['sn'])
                elif any(p['k'] in ('if', 'while', 'for', 'switch', 'lambda', 'try') for p in ps):
                    C.undecided('user', 'conditional rethrow in ' + f['sn'])
            if runs and re_ and max(x[0]['l'] for x in re_) < min(x[0]['l'] for x in runs):
                C.bad('user', '%s|early' % f['sn'], loc(f, re_[0][0]), '%s rethrows before the tasks have run' % f['sn'])
            # nothing else in the region that throws by itself
            for n, ps in walkp(f['body']):
                if n['k'] == 'throw' and any(p['k'] == 'omp' and 'parallel' in p['dir'] for p in ps):
                    i = [j for j, p in enumerate(ps) if p['k'] == 'omp'][-1]
                    if not any(p['k'] == 'lambda' or (p['k'] == 'try') for p in ps[i:]):
                        C.bad('user', '%s|throw' % f['sn'], loc(f, n), 'a throw statement in the parallel region is outside the guard')
            # a return between region and rethrow
            rl = [n['l'] for n, ps, inside in re_]
            regl = [n for n in walk(f['body']) if n['k'] == 'omp' and 'parallel' in n['dir'] and any(r[0] in walk(n) for r in runs)]
            for n, ps in walkp(f['body']):
                if n['k'] == 'return' and regl and rl and n['l'] < max(rl) and n['l'] > max(r[0]['l'] for r in runs) \
                        and not any(p['k'] in ('lambda', 'omp') for p in ps):
                    C.bad('user', '%s|return' % f['sn'], loc(f, n), '%s can return after the parallel region without rethrowing' % f['sn'])
    C.floor('runner', 1); C.floor('rethrow', 1)
    return C.finish()


def writes(f, G):
    for x in walk(f['body']):
        if x['k'] == 'call' and x.get('opr') == '=' and G.member(x['args'][0]) == G.ptr:
            return True
    return False
