"""P28 assignment lists.

Munkres and lapjv are interpreted at loop-body granularity (loops.py): every body runs once from a generic state and each path is kept
with its guards and its effects.  The Munkres steps are then compared with the method's decision table for the generic element: every
combination of mark, row cover, column cover and zero/non-zero cost is entered into the guards of the path and the effects that remain
must be those of the table, over index ranges that are exactly the matrix.  In lapjv every write to one of the two assignment lists
must be paired with the inverse write, and the previous owner of the column must be accounted for on that path."""
import itertools
import core
from core import Check, loc
from p25 import Unk, lin, aslin, ladd, lmul, const, unlin, fst, snd
from loops import LInterp

ENUMS = {'NORMAL': 0, 'STARED': 1, 'PRIMED': 2}


class Out(Exception):
    """an index outside of its array"""


class Env:
    """numeric reading of index and guard expressions: loop counters are numbers, array elements are given by `data`"""
    def __init__(self, env, data=None, sizes=None, over=None):
        self.e, self.data, self.sizes, self.over = env, data, sizes or {}, over or (lambda v: None)

    def val(self, v):
        if v is None:
            return None
        o = self.over(v)
        if o is not None:
            return o
        if v in self.e:
            return self.e[v]
        k = v[0]
        if k == 'lin':
            t = v[1]
            for a, c in v[2]:
                x = self.val(a)
                if x is None or isinstance(x, (str, tuple)):
                    return None
                t += c * x
            return t
        if k == 'mul':
            a, b = self.val(v[1]), self.val(v[2])
            return None if a is None or b is None else a * b
        if k == 'mod':
            a, b = self.val(v[1]), self.val(v[2])
            return None if a is None or not b else a % b
        if k == 'div':
            a, b = self.val(v[1]), self.val(v[2])
            return None if a is None or not b else a // b
        if k == 'bool':
            return int(v[1])
        if k == 'enum':
            return ENUMS.get(v[1].split('::')[-1])
        if k == 'MAX':
            return 1 << 60
        if k == 'at':
            i = self.val(v[2])
            n = v[1][1] if v[1][0] == 'A' else None
            if isinstance(i, int) and n in self.sizes and not 0 <= i < self.sizes[n]:
                raise Out('%s[%d] of %d' % (n, i, self.sizes[n]))
            if self.data and isinstance(i, int):
                return self.data(n, i)
            return None
        if k == 'cond':
            t = self.atom(v[1])
            return None if t is None else int(t == v[2])
        return None

    def atom(self, a):
        if a[0] in ('pos', 'zero'):
            x = self.val(a[1])
            return None if x is None else (x > 0 if a[0] == 'pos' else x == 0)
        if a[0] == 'eqv':
            x, y = self.val(a[1]), self.val(a[2])
            return True if a[1] == a[2] else None if x is None or y is None else x == y
        return None

    def path(self, p):
        r = True
        for a, q in p:
            t = self.atom(a)
            if t is None:
                r = None
            elif t != q:
                return False
        return r


def effects(events, E, upd=None, depth=0):
    """the possible effects of executing the events: loops run over the numeric values of their counters.
    yields ('w', array, index, value, certain, loop env) ...; a list in order"""
    out = []
    for e in events:
        if e['op'] == 'aw':
            if e.get('init'):
                continue
            i, v = E.val(e['key']), E.val(e['val'])
            n = e['on'][1]
            if isinstance(i, int) and n in E.sizes and not 0 <= i < E.sizes[n]:
                raise Out('%s[%d] of %d' % (n, i, E.sizes[n]))
            out.append(('w', n, i, v, e))
        elif e['op'] == 'loop':
            out.append(('loop', e['on'], list(runs(e['on'], E))))
        elif e['op'] in ('fw', 'call', 'push', 'fill', 'again'):
            out.append((e['op'], e['on'], E.val(e['val']) if e.get('val') is not None and not isinstance(e.get('val'), bool) else None, e))
    return out


def runs(rec, E, limit=64):
    """iterations of a loop over the numeric values of its counter: (env, [(certain, path record, effects)])"""
    var = rec['loopvar']
    sym = rec['syms'].get(var) if var is not None else None
    env = dict(E.e)
    known = False
    if rec.get('ksym') is not None:
        n = E.sizes.get(rec['over'][1]) if rec['over'][0] == 'A' else None
        for i in range(n) if n is not None else (None,):
            X = Env({**env, **({rec['ksym']: i} if i is not None else {})}, E.data, E.sizes, E.over)
            yield X, [(t, p, effects(p['events'], X)) for p in rec['paths'] for t in (X.path(p['path']),) if t is not False]
        return
    if sym is not None:
        s = E.val(rec['pre'][var])
        if isinstance(s, int):
            env[sym] = s
            known = True
    for d, s in rec['syms'].items():
        if s != sym:
            env.pop(s, None)
    def mentions(v):
        return v == sym or isinstance(v, tuple) and any(mentions(x) for x in v)
    if known:
        X = Env(env, E.data, E.sizes, E.over)
        firsts = [next((a for a, q in p['path'] if mentions(a)), None) for p in rec['paths']]
        try:
            if any(a is None or X.atom(a) is None for a in firsts):
                known = False
        except Out:
            known = False
        if not known:
            env.pop(sym)
    for _ in range(limit):
        X = Env(dict(env), E.data, E.sizes, E.over)
        ps = []
        for p in rec['paths']:
            t = X.path(p['path'])
            if t is not False:
                ps.append((t, p, effects(p['events'], X)))
        if not ps:
            return
        yield X, ps
        if not known:
            return
        nxt = {X.val(p['upd'].get(var, sym)) for _, p, _ in ps if p['out'] == 'end'}
        if len(nxt) != 1 or not isinstance(next(iter(nxt)), int) or nxt == {env[sym]}:
            return
        env[sym] = next(iter(nxt))
    raise Unk('loop over %s does not end' % (rec['name'].get(var),))


def flat(effs, env=None, certain=True):
    """all elementary effects with the counters at which they happen: (certain, env, effect, path record)"""
    for x in effs:
        if x[0] == 'loop':
            for X, ps in x[2]:
                for t, p, es in ps:
                    c = certain and t is True and len(ps) == 1
                    yield ('visit', c, X, p, es)
                    yield from ((k, c and cc, XX, pp, ee) for k, cc, XX, pp, ee in flat(es, X, True))
        else:
            yield ('eff', certain, env, None, x)


class P28:
    def __init__(self, C, F):
        self.C, self.F = C, F

    def judge(self, rule, f, what, ok, msg):
        if ok is None:
            self.C.undecided(rule, what); return
        if ok:
            self.C.instance(rule, what)
        else:
            self.C.bad(rule, what, loc(f), msg)

    # ------------------------------------------------------------------ Munkres
    STEPS = ('step_one', 'step_two', 'step_three', 'step_four', 'step_five', 'step_six')
    OPQ = {'find_a_zero', 'get_col_of_star_in_row', 'run_assignment', 'reset'} | set(STEPS)
    FIELDS = {'N': ('N',), 'cost': ('A', 'cost'), 'mask': ('A', 'mask'), 'rowcover': ('A', 'rowcover'), 'colcover': ('A', 'colcover'),
              'step': ('step',), 'stored_row': ('sr',), 'stored_col': ('sc',), 'finished': ('fin',)}

    def method(self, name):
        fs = [f for f in self.F.concrete() if (f.get('csn') or '').split('::')[-1] == 'Munkres' and f['fn'] == name and f.get('body')]
        fs.sort(key=lambda f: ('double' not in (f.get('csn') or '') and 'Munkres<double>' not in str(f.get('targs')), f['f']))
        return fs[0] if fs else None

    def interp(self, name, args=()):
        f = self.method(name)
        if f is None:
            self.C.undecided('function present', 'Munkres::' + name)
            return None, None
        if len(f['params']) != len(args):
            self.C.undecided('interpretation', 'Munkres::%s: parameters' % name)
            return f, None
        I = LInterp(self.F, self.OPQ - {name})
        I.names = {p['d']: p['n'] for p in f['params']}
        I.asize = {}
        try:
            rs = I.function(f, list(args), dict(self.FIELDS))
        except Unk as e:
            self.C.undecided('interpretation', 'Munkres::%s: %s' % (name, e))
            return f, None
        except Exception as e:
            self.C.undecided('interpretation', 'Munkres::%s: %s %s' % (name, type(e).__name__, e))
            return f, None
        self.C.instance('functions interpreted', 'Munkres::' + name)
        return f, rs

    @staticmethod
    def sizes(n):
        return {'mask': n * n, 'cost': n * n, 'rowcover': n, 'colcover': n, 'out': n}

    def states(self, n):
        """the generic element in each of its 24 states, on two backgrounds"""
        for r0, c0 in itertools.product(range(n), repeat=2):
            for z, m, a, b in itertools.product((0, 1), (0, 1, 2), (0, 1), (0, 1)):
                for bg in (0, 1):
                    def data(name, i, r0=r0, c0=c0, z=z, m=m, a=a, b=b, bg=bg, n=n):
                        if name == 'mask': return m if i == r0 * n + c0 else (0, 1)[bg]
                        if name == 'cost': return (0, 7)[z] if i == r0 * n + c0 else (0, 7)[bg]
                        if name == 'rowcover': return a if i == r0 else bg
                        if name == 'colcover': return b if i == c0 else bg
                        return None
                    yield (r0, c0, z, m, a, b, bg), data

    def top(self, rs, n, data=None, env=None, over=None):
        """(path, effects) for the paths of the function that the numbers allow"""
        E = Env({('N',): n, **(env or {})}, data, self.sizes(n), over)
        for r in rs:
            t = E.path(r['path'])
            if t is not False:
                yield E, t, r, effects(r['events'], E)

    def finals(self, effs):
        """array -> index -> final certain value; None marks values that are not certain"""
        out = {}
        for k, c, X, p, e in flat(effs):
            if k == 'eff' and e[0] == 'w':
                if e[2] is None:
                    out.setdefault(e[1], {})['?'] = True
                else:
                    out.setdefault(e[1], {})[e[2]] = e[3] if c else None
            elif k == 'eff' and e[0] == 'fill':
                a = e[1]
                if a[0] == 'A':
                    out.setdefault(a[1], {})['*'] = e[2]
        return out

    def cleared(self, rule, f, name, effs, n, want):
        fin = self.finals(effs)
        for arr, (size, v) in want.items():
            got = fin.get(arr, {})
            if '*' in got:
                ok = got['*'] == v
            else:
                ok = all(got.get(i) == v and i in got for i in range(size))
                if '?' in got and not ok:
                    ok = None
            self.judge(rule, f, '%s %s N=%d' % (name, arr, n), ok, 'Munkres::%s does not set every element of %s to %s for a matrix of %d rows: %s' % (name, arr, v, n, sorted(got.items(), key=str)))

    def opaque_calls(self, effs):
        return any(k == 'eff' and e[0] == 'call' for k, c, X, p, e in flat(effs))

    def field(self, effs, name):
        v = None
        for k, c, X, p, e in flat(effs):
            if k == 'eff' and e[0] == 'fw' and e[1] == name:
                v = e[2] if c else '?'
        return v

    def guarded(self, fn):
        """run an obligation; an index outside of the matrix is a violation of its own"""
        name = fn.__name__
        try:
            fn()
        except Out as e:
            m = self.method(name if name != 'run_' else 'run_assignment')
            self.C.bad('indices stay inside the matrix', 'Munkres::%s %s' % (name, str(e).split('[')[0]), loc(m) if m else '', 'Munkres::%s uses an element outside of the matrix: %s' % (name, e))
        except Unk as e:
            self.C.undecided('interpretation', 'Munkres::%s: %s' % (name, e))

    def reset(self):
        f, rs = self.interp('reset')
        if not rs: return
        for n in (1, 2, 3):
            for E, t, r, effs in self.top(rs, n):
                self.cleared('reset clears all marks and covers', f, 'reset', effs, n, {'mask': (n * n, 0), 'rowcover': (n, 0), 'colcover': (n, 0)})
        for E, t, r, effs in self.top(rs, 2):
            for k, v in (('step', 1), ('finished', 0)):
                g = self.field(effs, k)
                self.judge('reset starts over', f, 'reset ' + k, None if g == '?' else g == v, 'Munkres::reset leaves %s at %s' % (k, g))

    def element(self, rs, n, data, r0, c0, env=None, keep=lambda e: True):
        """possible effects on iterations over element (r0, c0): set of frozensets of (array, index, value) and whether other guards stay open"""
        res = []
        for E, t, r, effs in self.top(rs, n, data, env):
            res += [(k, c, X, p, e) for k, c, X, p, e in flat(effs)]
        return res

    def scan(self, effs, loops=None):
        """innermost iterations: (env, [(certain, path, writes)])"""
        def go(es, X0):
            for x in es:
                if x[0] == 'loop':
                    for X, ps in x[2]:
                        inner = [q for t, p, e in ps for q in e if q[0] == 'loop']
                        if inner:
                            for t, p, e in ps:
                                yield from go(e, X)
                        else:
                            yield x[1], X, ps
        return go(effs, None)

    def step_two(self):
        f, rs = self.interp('step_two')
        if not rs: return
        R = 'a star is made only on an uncovered zero and covers its row and column'
        for n in (2, 3):
            for (r0, c0, z, m, a, b, bg), data in self.states(n):
                for E, t, r, effs in self.top(rs, n, data):
                    stars = {}
                    hit = z == 0 and a == 0 and b == 0
                    seen = None
                    for rec, X, ps in self.scan(effs):
                        for t, p, es in ps:
                            w = [(e[1], e[2], e[3]) for e in es if e[0] == 'w']
                            st = [x for x in w if x[0] == 'mask' and x[2] == 1]
                            if any(x[0] == 'mask' and (x[1] is None or x[2] is None) for x in w):
                                return self.C.undecided(R, 'step_two')
                            for x in st:
                                if x[1] == r0 * n + c0:
                                    want = {('mask', r0 * n + c0, 1), ('rowcover', r0, 1), ('colcover', c0, 1)}
                                    seen = (t, set(w) >= want)
                    if not hit and seen is not None:
                        self.judge(R, f, 'star only on zero', seen[0] is None and None, 'Munkres::step_two stars an element with cost %szero, row cover %d, column cover %d' % ('non-' if z else '', a, b))
                    elif hit and seen is None:
                        self.judge(R, f, 'star on zero', False, 'Munkres::step_two does not star the uncovered zero at row %d, column %d of %d' % (r0, c0, n))
                    elif hit:
                        self.judge(R, f, 'covers with the star', seen[1], 'Munkres::step_two stars (%d, %d) without covering its row and its column' % (r0, c0))
                    else:
                        self.C.instance(R, 'step_two N=%d state %s' % (n, (r0, c0, z, m, a, b, bg)))
        for n in (1, 2, 3):
            for E, t, r, effs in self.top(rs, n, lambda *a: None):
                last = [e for e in effs if e[0] in ('loop', 'fill')]
                self.cleared('covers are cleared afterwards', f, 'step_two', [e for e in last[1:]], n, {'rowcover': (n, 0), 'colcover': (n, 0)})
                g = self.field(effs, 'step')
                self.judge('order of the steps', f, 'step_two next', None if g == '?' else g == 3, 'Munkres::step_two is followed by step %s' % g)

    def step_three(self):
        f, rs = self.interp('step_three')
        if not rs: return
        R = 'the columns of stars are covered and counted'
        for n in (2, 3):
            for (r0, c0, z, m, a, b, bg), data in self.states(n):
                if bg: continue
                for E, t, r, effs in self.top(rs, n, data):
                    got = False
                    for k, c, X, p, e in flat(effs):
                        if k == 'eff' and e[0] == 'w' and e[1] == 'colcover' and e[2] == c0 and e[3] == 1:
                            got = True if c else 'maybe'
                        elif k == 'eff' and e[0] == 'w' and e[1] in ('mask', 'rowcover', 'cost'):
                            self.judge(R, f, 'no other change', False, 'Munkres::step_three changes %s' % e[1])
                        elif k == 'eff' and e[0] == 'w' and e[1] == 'colcover' and e[2] is not None and e[2] != c0:
                            self.judge(R, f, 'only that column', False, 'Munkres::step_three covers column %s for a star in column %d' % (e[2], c0))
                    self.judge(R, f, 'star column N=%d state %s' % (n, (r0, c0, z, m, a, b)), None if got == 'maybe' else got == (m == 1), 'Munkres::step_three %s column %d when element (%d, %d) is %s' % ('covers' if got else 'does not cover', c0, r0, c0, 'starred' if m == 1 else 'not starred'))
        R = 'the method ends when every column has a star'
        n = 3
        for cov in itertools.product((0, 1), repeat=n):
            def data(name, i, cov=cov): return cov[i] if name == 'colcover' else 1 - cov[i] if name == 'rowcover' else None
            # the counter: increments on covered columns only
            cnt = {}
            for E, t, r, effs in self.top(rs, n, data):
                for x in effs:
                    if x[0] != 'loop': continue
                    for X, ps in x[2]:
                        for t2, p, es in ps:
                            for d, v in p['upd'].items():
                                s = x[1]['syms'].get(d)
                                if d != x[1]['loopvar'] and s is not None and v == ladd(s, lin(1)) and t2 is True:
                                    cnt[d] = cnt.get(d, E.val(x[1]['pre'][d]) if isinstance(E.val(x[1]['pre'][d]), int) else 99) + 1
                break
            if len(cnt) == 1 or sum(cov) == 0:
                got = next(iter(cnt.values())) if cnt else 0
                self.judge(R, f, 'count of %s' % (cov,), got == sum(cov), 'Munkres::step_three counts %d covered columns of %s' % (got, cov))
            else:
                self.C.undecided(R, 'count of %s' % (cov,))
        for k in range(n + 1):
            nxt = set()
            for r in rs:
                E = Env({('N',): n}, None, self.sizes(n), lambda v, k=k: k if v[0] == 'post' else None)
                if E.path(r['path']) is not False:
                    fw = [e for e in r['events'] if e['op'] == 'fw' and e['on'] == 'step']
                    nxt.add(E.val(fw[-1]['val']) if fw else 'none')
            want = {7} if k == n else {4}
            self.judge(R, f, 'next after %d' % k, None if None in nxt else nxt == want, 'Munkres::step_three goes to step %s when %d of %d columns have a star' % (sorted(nxt, key=str), k, n))

    def find_a_zero(self):
        f, rs = self.interp('find_a_zero', [('row',), ('col',)])
        if not rs: return
        R = 'the zero found is uncovered and inside the matrix'
        for n in (2, 3):
            for (r0, c0, z, m, a, b, bg), data in self.states(n):
                hit = z == 0 and a == 0 and b == 0
                for E, t, r, effs in self.top(rs, n, data):
                    seen = set()
                    for rec, X, ps in self.scan(effs):
                        for t2, p, es in ps:
                            u = {rec['name'][d]: v for d, v in p['upd'].items()}
                            vals = {k: X.val(v) for k, v in u.items() if k in [q['n'] for q in f['params']]}
                            if vals:
                                seen.add(tuple(vals.get(q['n']) for q in f['params']))
                    found = (r0, c0) in seen
                    if any(None in s for s in seen):
                        self.judge(R, f, 'row and column', None if any(s == (None, None) for s in seen) else False, 'Munkres::find_a_zero sets only one of row and column'); continue
                    if any(not (0 <= s[0] < n and 0 <= s[1] < n) for s in seen):
                        self.judge(R, f, 'inside', False, 'Munkres::find_a_zero returns %s for a matrix of %d rows' % (sorted(seen), n)); continue
                    zeros = {(i, j) for i in range(n) for j in range(n) if data('cost', i * n + j) == 0 and data('rowcover', i) == 0 and data('colcover', j) == 0}
                    good = seen <= zeros and bool(seen) == bool(zeros)
                    self.judge(R, f, 'N=%d state %s' % (n, (r0, c0, z, m, a, b, bg)), good, 'Munkres::find_a_zero %s the element with cost %szero, row cover %d, column cover %d' % ('returns' if found else 'does not return', 'non-' if z else '', a, b))
        for r in rs:
            for e in r['events']:
                if e['op'] == 'loop':
                    pre = {e['on']['name'][d]: v for d, v in e['on']['pre'].items()}
                    got = {k: const(v) for k, v in pre.items() if k in [q['n'] for q in f['params']]}
                    if len(got) == 2:
                        self.judge(R, f, 'none found', all(x is not None and x < 0 for x in list(got.values())[:1]) and got.get(f['params'][0]['n'], 0) is not None, 'Munkres::find_a_zero starts from %s' % got)
                    break

    def get_col_of_star_in_row(self):
        f, rs = self.interp('get_col_of_star_in_row', [('row',)])
        if not rs: return
        R = 'the star found is in the row asked for'
        for n in (2, 3):
            for (r0, c0, z, m, a, b, bg), data in self.states(n):
                if bg: continue
                for row in range(n):
                    for E, t, r, effs in self.top(rs, n, data, {('row',): row}):
                        got = set()
                        for rec, X, ps in self.scan(effs):
                            for t2, p, es in ps:
                                if p['out'] == 'ret':
                                    got.add(X.val(p['val'])); continue
                                for d, v in p['upd'].items():
                                    if d != rec['loopvar'] and r['val'] == rec['post'].get(d):
                                        got.add(X.val(v))
                        want = {c0} if m == 1 and row == r0 else set()
                        if None in got:
                            self.C.undecided(R, 'get_col_of_star_in_row'); continue
                        self.judge(R, f, 'N=%d row %d state %s' % (n, row, (r0, c0, m)), got == want, 'Munkres::get_col_of_star_in_row(%d) finds %s with the only star at (%s)' % (row, sorted(got), '%d, %d' % (r0, c0) if m == 1 else 'none'))
        for r in rs:
            v = r['val']
            if r['out'] == 'ret' and v and v[0] == 'post':
                pre = [e['on']['pre'].get(d) for e in r['events'] if e['op'] == 'loop' for d in e['on']['post'] if e['on']['post'][d] == v]
                self.judge(R, f, 'no star', None if not pre or const(pre[0]) is None else const(pre[0]) < 0, 'Munkres::get_col_of_star_in_row starts from column %s' % (pre and const(pre[0])))

    def step_four(self):
        f, rs = self.interp('step_four')
        if not rs: return
        R = 'priming follows the table of step four'
        loops = [e['on'] for r in rs for e in r['events'] if e['op'] == 'loop']
        if not loops:
            return self.C.undecided(R, 'step_four: no loop')
        n = 3
        for rec in loops:
            for row, col, star in itertools.product((-1, 0, 1, 2), (0, 1, 2), (-1, 0, 1, 2)):
                def over(v, row=row, col=col, star=star):
                    if v[0] == 'out' and v[1] == 'find_a_zero': return row if v[2] == 'row' else col if v[2] == 'col' else None
                    if v[0] == 'ev' and v[1] == 'get_col_of_star_in_row': return star
                    if v[0] == 'car' and v[1] == 'done': return 0
                    return None
                E = Env({('N',): n}, None, self.sizes(n), over)
                got = set()
                und = False
                for p in rec['paths']:
                    t = E.path(p['path'])
                    if t is False: continue
                    if t is None: und = True
                    es = effects(p['events'], E)
                    w = frozenset((e[1], e[2], e[3]) for e in es if e[0] == 'w') | frozenset((e[1], '', e[2]) for e in es if e[0] == 'fw')
                    ask = [E.val(e[3]['args'][0]) for e in es if e[0] == 'call' and e[1] == 'get_col_of_star_in_row']
                    stop = any(E.val(v) == 1 for d, v in p['upd'].items() if rec['name'][d] not in ('row', 'col')) or p['out'] in ('brk', 'ret')
                    got.add((w, tuple(ask), stop))
                if und or len(got) != 1:
                    self.C.undecided(R, 'step_four row %d star %d' % (row, star)); continue
                (w, ask, stop), = got
                if row < 0:
                    want = (frozenset({('step', '', 6)}), (), True)
                elif star >= 0:
                    want = (frozenset({('mask', row * n + col, 2), ('rowcover', row, 1), ('colcover', star, 0)}), (row,), False)
                else:
                    want = (frozenset({('mask', row * n + col, 2), ('step', '', 5), ('stored_row', '', row), ('stored_col', '', col)}), (row,), True)
                self.judge(R, f, 'zero (%d, %d), star %d' % (row, col, star), (w, ask, stop) == want, 'Munkres::step_four with the zero at (%d, %d) and the star of that row in column %d does %s instead of %s' % (row, col, star, (sorted(w, key=str), stop), (sorted(want[0], key=str), want[2])))

    def step_five(self):
        f, rs = self.interp('step_five')
        if not rs: return
        n = 3
        R = 'the path alternates between the star of the column and the prime of its row'
        for r in rs:
            ev = r['events']
            start = [e for e in ev if e['op'] == 'push' and e.get('val') and e['val'][0] == 'pair' and e['val'][1:] == (('sr',), ('sc',))]
            grow = [e['on'] for e in ev if e['op'] == 'loop' and any(x['op'] == 'push' for p in e['on']['paths'] for x in p['events'])]
            if len(grow) != 1:
                self.C.undecided(R, 'step_five: search'); continue
            self.judge(R, f, 'starts at the prime', len(start) == 1, 'Munkres::step_five does not start its path at the stored prime')
            lst = start[0]['on'] if start else None
            rec = grow[0]
            # the two coordinates: local array with two elements
            init = {}
            for e in ev:
                if e['op'] == 'aw' and e.get('init'):
                    init.setdefault(e['on'][1], {})[const(e['key'])] = e['val']
            coord = [a for a, d in init.items() if d.get(1) == ('sc',) and const(d.get(0)) == 0]
            if not coord:
                wrong = [a for a, d in init.items() if len(d) == 2 and all(x in (('sc',), ('sr',)) or const(x) is not None for x in map(unlin, d.values())) and any(x in (('sc',), ('sr',)) for x in d.values())]
                if len(wrong) == 1:
                    self.judge(R, f, 'starts in the column of the prime', False, 'Munkres::step_five starts its search at (%s)' % ', '.join(txt(init[wrong[0]][k]) for k in (0, 1))); continue
            if len(coord) != 1:
                self.C.undecided(R, 'step_five: coordinates'); continue
            rc = coord[0]
            sw = [s for d, s in rec['syms'].items()]
            for i, R0, C0, m in itertools.product((0, 1), range(n), range(n), (0, 1, 2)):
                def data(name, k):
                    if name == rc: return (R0, C0)[k]
                    if name == 'mask': return m if k == R0 * n + C0 else 0
                    return None
                E = Env({('N',): n, **{s: i for s in sw}}, data, {**self.sizes(n), rc: 2})
                got = []
                for p in rec['paths']:
                    t = E.path(p['path'])
                    if t is False: continue
                    es = effects(p['events'], E)
                    push = [(E.val(fst(e[3]['val'])), E.val(snd(e[3]['val'])), e[1]) for e in es if e[0] == 'push']
                    fin = [R0, C0]
                    for e in es:
                        if e[0] == 'w' and e[1] == rc and e[2] is not None: fin[e[2]] = e[3]
                    nx = [E.val(v) for d, v in p['upd'].items()]
                    got.append((t, push, fin, nx[0] if nx else i, len(nx)))
                if len(got) != 1 or got[0][0] is None or None in got[0][2] or got[0][3] is None:
                    self.C.undecided(R, 'step_five: search for %s' % ('prime' if i else 'star')); continue
                t, push, fin, nx, k = got[0]
                if m == (1, 2)[i]:
                    other = [R0, C0]; other[1 - i] = 0
                    ok = [x[:2] for x in push] == [(R0, C0)] and all(x[2] == lst for x in push) and nx == 1 - i and fin == other
                else:
                    other = [R0, C0]; other[i] += 1
                    ok = not push and nx == i and fin == other
                self.judge(R, f, 'search for %s at (%d, %d) mark %d' % (('star', 'prime')[i], R0, C0, m), ok,
                           'Munkres::step_five, searching the %s, at (%d, %d) with mark %s: adds %s, continues at %s in direction %d' % (('star of a column', 'prime of a row')[i], R0, C0, ('NORMAL', 'STARED', 'PRIMED')[m], [x[:2] for x in push], fin, nx))
            # flip
            R2 = 'marks are exchanged along the path'
            rest = ev[[k for k, e in enumerate(ev) if e['op'] == 'loop' and e['on'] is rec][0] + 1:]
            fl = [e['on'] for e in rest if e['op'] == 'loop' and e['on'].get('over') == lst]
            if len(fl) != 1:
                self.C.undecided(R2, 'step_five'); continue
            el = fl[0]['elem']
            for R0, C0, m in itertools.product(range(n), range(n), (0, 1, 2)):
                def data(name, k): return (m if k == R0 * n + C0 else 0) if name == 'mask' else None
                E = Env({('N',): n, fst(el): R0, snd(el): C0}, data, self.sizes(n))
                got = set()
                for p in fl[0]['paths']:
                    t = E.path(p['path'])
                    if t is False: continue
                    es = [e for e in effects(p['events'], E) if e[0] == 'w']
                    cur = m
                    for e in es:
                        cur = e[3] if (e[1], e[2]) == ('mask', R0 * n + C0) else None
                    got.add((t, cur))
                if len(got) != 1 or (None in next(iter(got))):
                    self.judge(R2, f, 'flip', None, ''); continue
                (t, cur), = got
                self.judge(R2, f, 'mark %d at (%d, %d)' % (m, R0, C0), cur == {0: 0, 1: 0, 2: 1}[m], 'Munkres::step_five changes mark %d to %d along the path' % (m, cur))
            k = [i for i, e in enumerate(ev) if e['op'] == 'loop' and e['on'] is fl[0]][0]
            for m in (0, 1, 2):
                E = Env({('N',): n}, lambda name, i: m if name == 'mask' else None, self.sizes(n))
                fin = self.finals(effects(ev[k + 1:], E))
                got = fin.get('mask', {})
                self.judge('primes are erased', f, 'mark %d' % m, None if '?' in got or None in got.values() else all(got.get(i, m) == (m if m < 2 else 0) for i in range(n * n)), 'Munkres::step_five leaves marks %s where all were %s' % (sorted(got.items(), key=str), m))
            for nn in (1, 2, 3):
                E = Env({('N',): nn}, None, self.sizes(nn))
                self.cleared('covers are cleared afterwards', f, 'step_five', effects(ev[k + 1:], E), nn, {'rowcover': (nn, 0), 'colcover': (nn, 0)})
            fw = [e for e in ev if e['op'] == 'fw' and e['on'] == 'step']
            self.judge('order of the steps', f, 'step_five next', bool(fw) and const(fw[-1]['val']) == 3, 'Munkres::step_five is not followed by step 3')

    def step_six(self):
        f, rs = self.interp('step_six')
        if not rs: return
        R = 'covered rows gain and uncovered columns lose the smallest uncovered cost'
        S = 5
        for n in (2, 3):
            for (r0, c0, z, m, a, b, bg), data in self.states(n):
                def over(v): return S if v[0] == 'post' else None
                for E, t, r, effs in self.top(rs, n, data, None, over):
                    wr = [x for k, c, X, p, x in flat(effs) if k == 'eff' and x[0] == 'w' and x[1] == 'cost' and x[2] == r0 * n + c0]
                    cs = data('cost', r0 * n + c0)
                    got = wr[-1][3] - cs if wr and wr[-1][3] is not None else None if wr else 0
                    want = (a - (1 - b)) * S
                    self.judge(R, f, 'N=%d state %s' % (n, (r0, c0, z, a, b, bg)), None if got is None else got == want, 'Munkres::step_six changes an element with row cover %d, column cover %d by %s times the smallest' % (a, b, got is not None and got / S))
        R = 'the smallest is taken over the uncovered elements'
        for n in (2, 3):
            for (r0, c0, z, m, a, b, bg), data in self.states(n):
                if bg or not z: continue
                for cur in (5, 7, 9):
                    def over(v, cur=cur): return cur if v[0] == 'car' and v[1] not in ('r', 'c', 'i', 'j') and not any(v == s for s in cnt) else None
                    cnt = set()
                    for r in rs:
                        for e in r['events']:
                            if e['op'] == 'loop': self.counters(e['on'], cnt)
                    for E, t, r, effs in self.top(rs, n, data, None, over):
                        res = set()
                        for rec, X, ps in self.scan(effs):
                            if not any(k != rec['loopvar'] for p in rec['paths'] for k in p['upd']): continue
                            at = None
                            for t2, p, es in ps:
                                for d, v in p['upd'].items():
                                    if d != rec['loopvar'] and v[0] not in ('at', 'post', 'car'):
                                        res.add(None)
                                    if d != rec['loopvar'] and v[0] == 'at' and self.idx(v, X) == r0 * n + c0:
                                        res.add(True if t2 else None)
                        want = a == 0 and b == 0 and 7 < cur
                        got = True in res
                        if None in res: self.C.undecided(R, 'step_six smallest'); continue
                        if cur == 7: continue
                        self.judge(R, f, 'N=%d state %s current %d' % (n, (r0, c0, a, b), cur), got == want, 'Munkres::step_six %s an element with row cover %d, column cover %d and cost 7 as smallest when it has %d' % ('takes' if got else 'does not take', a, b, cur))
        g = {const(e['val']) for r in rs for e in r['events'] if e['op'] == 'fw' and e['on'] == 'step'}
        self.judge('order of the steps', f, 'step_six next', g == {4}, 'Munkres::step_six is followed by step %s' % g)

    def counters(self, rec, out):
        if rec['loopvar'] is not None and rec['loopvar'] in rec['syms']:
            out.add(rec['syms'][rec['loopvar']])
        for p in rec['paths']:
            for e in p['events']:
                if e['op'] == 'loop': self.counters(e['on'], out)

    def idx(self, v, X):
        return X.val(v[2]) if v[0] == 'at' and v[1][0] == 'A' and v[1][1] == 'cost' else None

    def step_one(self):
        f, rs = self.interp('step_one')
        if not rs: return
        R = 'each row is reduced by its smallest element'
        for n in (1, 2, 3):
            cnt = set()
            for r in rs:
                for e in r['events']:
                    if e['op'] == 'loop': self.counters(e['on'], cnt)
            for E, t, r, effs in self.top(rs, n, lambda name, i: 100 + i if name == 'cost' else None, None, lambda v: 5 if v[0] == 'post' else None):
                fin = self.finals(effs).get('cost', {})
                if '?' in fin or None in fin.values():
                    self.C.undecided(R, 'step_one N=%d' % n)
                else:
                    self.judge(R, f, 'subtract N=%d' % n, fin == {i: 95 + i for i in range(n * n)}, 'Munkres::step_one does not subtract the smallest from exactly the elements of each row: %s' % sorted(fin.items()))
                for x in effs:
                    if x[0] != 'loop': continue
                    for X, ps in x[2]:
                        row = [X.e.get(s) for s in x[1]['syms'].values() if s in cnt]
                        for t2, p, es in ps:
                            mins = [q for q in es if q[0] == 'loop' and any(d != q[1]['loopvar'] for pp in q[1]['paths'] for d in pp['upd'])]
                            for q in mins:
                                cand = set()
                                for d, pre in q[1]['pre'].items():
                                    if d != q[1]['loopvar'] and pre[0] == 'at': cand.add(X.val(pre[2]))
                                for Y, ps2 in q[2]:
                                    for t3, p3, e3 in ps2:
                                        for d, v in p3['upd'].items():
                                            if d != q[1]['loopvar'] and v[0] == 'at': cand.add(Y.val(v[2]))
                                if len(row) == 1 and row[0] is not None and None not in cand:
                                    self.judge(R, f, 'row %d of %d' % (row[0], n), cand == {row[0] * n + c for c in range(n)}, 'Munkres::step_one takes the smallest of row %d among elements %s' % (row[0], sorted(cand)))
        g = {const(e['val']) for r in rs for e in r['events'] if e['op'] == 'fw' and e['on'] == 'step'}
        self.judge('order of the steps', f, 'step_one next', g == {2}, 'Munkres::step_one is followed by step %s' % g)

    def get_assignment(self):
        f, rs = self.interp('get_assignment', [('A', 'out')])
        if not rs: return
        R = 'the assignment lists the column of the star of each row'
        for n in (2, 3):
            for (r0, c0, z, m, a, b, bg), data in self.states(n):
                if bg: continue
                hits = set()
                for E, t, r, effs in self.top(rs, n, data):
                    w = {(x[2], x[3]) for k, c, X, p, x in flat(effs) if k == 'eff' and x[0] == 'w' and x[1] == 'out'}
                    lp = any(x[0] == 'loop' for x in effs)
                    if lp:
                        hits.add(frozenset(w))
                if not hits:
                    self.C.undecided(R, 'get_assignment'); continue
                want = frozenset({(r0, c0)}) if m == 1 else frozenset()
                self.judge(R, f, 'N=%d state %s' % (n, (r0, c0, m)), hits == {want}, 'Munkres::get_assignment writes %s when element (%d, %d) has mark %d' % ([sorted(h, key=str) for h in hits], r0, c0, m))

    def run_assignment(self):
        f, rs = self.interp('run_assignment')
        if not rs: return
        R = 'each step runs its own function'
        names = dict(enumerate(self.STEPS, 1))
        for r in rs:
            ev = [e for e in r['events'] if e['op'] in ('call', 'loop')]
            self.judge(R, f, 'reset first', bool(ev) and ev[0]['op'] == 'call' and ev[0]['on'] == 'reset', 'Munkres::run_assignment does not reset the marks first')
            for e in ev:
                if e['op'] != 'loop' or not any(x['op'] == 'call' for p in e['on']['paths'] for x in p['events']): continue
                rec = e['on']
                for k in range(1, 8):
                    got = set()
                    for p in rec['paths']:
                        E = Env({}, None, None, lambda v: k if v[0] == 'car' and v[1] == 'step' else 0 if v[0] == 'car' and v[1] == 'done' else None)
                        if E.path(p['path']) is False: continue
                        calls = tuple(x['on'] for x in p['events'] if x['op'] == 'call')
                        fin = any(x['op'] == 'fw' and x['on'] == 'finished' and E.val(x['val']) == 1 for x in p['events'])
                        stop = any(E.val(v) == 1 for d, v in p['upd'].items()) or p['out'] in ('brk', 'ret')
                        got.add((calls, fin, stop))
                    want = ((names[k],), False, False) if k in names else ((), True, True)
                    if len(got) != 1:
                        self.C.undecided(R, 'step %d' % k); continue
                    self.judge(R, f, 'step %d' % k, got == {want}, 'Munkres::run_assignment in step %d does %s' % (k, next(iter(got))))

    # ------------------------------------------------------------------ lapjv
    def lapjv(self):
        fs = [f for f in self.F.concrete() if f['fn'] == 'lapjv' and len(f['params']) == 7 and f.get('body')]
        if not fs:
            return self.C.undecided('function present', 'lapjv')
        f = sorted(fs, key=lambda f: f['f'])[0]
        I = LInterp(self.F, {'find_umins_plain', 'find_umins'})
        I.names = {p['d']: p['n'] for p in f['params']}
        I.asize = {}
        args = [('dim',), ('A', '#cost'), ('verbose',), ('A', '#row'), ('A', '#col'), ('A', '#u'), ('A', '#v')]
        try:
            rs = I.function(f, args, None)
        except Unk as e:
            return self.C.undecided('interpretation', 'lapjv: %s' % e)
        self.C.instance('functions interpreted', 'lapjv')
        self.lf = f
        ROW, COL = ('A', '#row'), ('A', '#col')
        done = set()

        def base(v):
            """array terms without versions"""
            if isinstance(v, tuple):
                if v and v[0] == 'A' and len(v) == 3:
                    return v[:2]
                return tuple(base(x) for x in v)
            return v
        self.base = base
        for r in rs:
            self.leaf(r['events'], [], r['path'], None, {}, done)
        # free rows
        self.free_rows(rs)
        self.ranges(rs)

    def leaf(self, events, nest, guards, rec, p, done):
        """pairing of the writes of one path through one body"""
        f, C, base = self.lf, self.C, self.base
        R = 'the two lists are written together'
        ROW, COL = ('A', '#row'), ('A', '#col')
        rw = [e for e in events if e['op'] == 'aw' and e['on'] == ROW]
        cw = [e for e in events if e['op'] == 'aw' and e['on'] == COL]
        where = 'loop at line %s' % rec['l'] if rec else 'single column'
        key = 'lapjv ' + '/'.join('%s' % (n['name'].get(n['loopvar']) or 'loop') for n in nest)
        for e in rw:
            ok = any(base(c['key']) == base(e['val']) and base(c['val']) == base(e['key']) for c in cw)
            self.judge(R, f, key + ' row', ok, 'lapjv (%s) records rowsol[%s] = %s without colsol[%s] = %s' % (where, txt(e['key']), txt(e['val']), txt(e['val']), txt(e['key'])))
        for e in cw:
            if const(aslin(e['val'])) == -1:
                continue
            ok = any(base(c['key']) == base(e['val']) and base(c['val']) == base(e['key']) for c in rw)
            self.judge(R, f, key + ' column', ok, 'lapjv (%s) records colsol[%s] = %s without rowsol[%s] = %s' % (where, txt(e['key']), txt(e['val']), txt(e['val']), txt(e['key'])))
            if rec is not None:
                self.owner(e, events, nest, guards, rec, p, key, where)
        if rec is not None and not cw and rec['paths'] and self.columnloop(rec):
            self.judge('the previous owner of a column is accounted for', f, key + ' initial', False, 'lapjv (%s): on one path of the initial pass a column is left without an entry' % where)
        for e in events:
            if e['op'] == 'loop':
                for q in e['on']['paths']:
                    self.leaf(q['events'], nest + [e['on']], list(guards) + list(q['path']), e['on'], q, done)

    def columnloop(self, rec):
        """the pass that sets every column for the first time"""
        ws = [e for q in rec['paths'] for e in q['events'] if e['op'] == 'aw' and e['on'] == ('A', '#col')]
        sym = rec['syms'].get(rec['loopvar'])
        return bool(ws) and sym is not None and all(self.only(e['key'], sym) for e in ws)

    @staticmethod
    def only(v, sym):
        v = aslin(v)
        return dict(v[2]).get(sym) in (1, -1) and all(a == sym or a == ('dim',) for a, _ in v[2])

    def owner(self, e, events, nest, guards, rec, p, key, where):
        f, base = self.lf, self.base
        R = 'the previous owner of a column is accounted for'
        b, a = base(e['key']), base(e['val'])
        old = ('at', ('A', '#col'), b)
        g = [(base(x), q) for x, q in guards]
        minus1 = ('zero', aslin(ladd(old, lin(1))))
        if (minus1, True) in [(x, q) for x, q in g]:
            return self.C.instance(R, key + ' unassigned')
        pushes = [x for x in events if x['op'] == 'aw' and x['on'] not in (('A', '#row'), ('A', '#col')) and base(x['val']) == old]
        if pushes:
            x = pushes[0]
            u = {base(rec['syms'][d]): base(v) for d, v in p['upd'].items() if d in rec['syms']}
            sy = {rec['syms'][d] for d in rec['syms']}
            i = base(x['key'])
            taken = a[0] == 'at' and a[1] == x['on']
            cars = all(z in sy for z, _ in aslin(i)[2])
            if cars and i not in sy:
                return self.judge(R, f, key + ' released', False, 'lapjv (%s) puts the released row at %s[%s], not at the place the list continues from' % (where, x['on'][1], txt(i)))
            if i in sy:                       # appended at a counter that is advanced, or put back where the row was taken from
                v = u.get(i)
                # on the path the counter may be back at its old value: then the row taken from there is replaced by the released one
                back = v is None and a == ('at', x['on'], i)
                ok = v == ladd(i, lin(1)) or back
                d = [d for d, z in rec['syms'].items() if base(z) == i][0]
                st = const(aslin(rec['pre'][d]))
                self.judge(R, f, key + ' list restarts', st == 0 if st is not None else None if not (rec['pre'][d][0] in ('car', 'post')) else False, 'lapjv (%s) continues its list of free rows at %s instead of starting it again' % (where, txt(rec['pre'][d])))
                return self.judge(R, f, key + ' released', ok, 'lapjv (%s) puts the released row at %s[%s] but the counter becomes %s' % (where, x['on'][1], txt(i), txt(v)))
            return self.C.undecided(R, key + ' released')
        if self.columnloop(rec):
            # first assignment of that row: a per-row counter, zero before, is advanced on every path
            inc = [x for x in events if x['op'] == 'aw' and base(x['key']) == a and base(x['val']) == ladd(('at', x['on'], a), lin(1))]
            first = [x for x in inc if (('zero', aslin(('at', x['on'], a))), True) in g]
            # columns: every one exactly once
            cols = []
            for E_ in (1, 2, 3):
                E = Env({('dim',): E_}, None, None)
                for n_ in nest[:-1]:
                    pass
                cols.append(sorted(X.val(e['key']) for X, ps in runs(rec, E) if X.val(e['key']) is not None) == list(range(E_)))
            others = all(any(x['op'] == 'aw' and x['on'] == ('A', '#col') and self.only(x['key'], rec['syms'][rec['loopvar']]) for x in q['events']) for q in rec['paths'])
            allinc = all(any(x['op'] == 'aw' and inc and x['on'] == inc[0]['on'] for x in q['events']) for q in rec['paths']) if inc else False
            if not inc:
                return self.judge(R, f, key + ' initial', False if not any(q for x, q in g if x[0] in ('zero', 'eqv', 'pos')) or len(g) <= 1 else None, 'lapjv (%s) assigns rows in the initial pass without checking that they are still free' % where)
            return self.judge(R, f, key + ' initial', bool(first) and all(cols) and others and allinc,
                              'lapjv (%s): in the initial pass a column is given to a row %s' % (where, 'that may already have one' if not first else 'although not every column is visited once and set on every path'))
        # alternating path: continues with the previous column of the row until the row where it started
        sym = None
        for d, s in rec['syms'].items():
            if base(s) == b:
                sym, nd = s, d
        if sym is not None:
            nxt = base(p['upd'].get(nd))
            again = [x for x in events if x['op'] == 'again']
            pre = ('at', ('A', '#row'), a)
            if nxt == pre:
                stop = [(x, q) for x, q in [(base(x), q) for x, q in p['path']] if x[0] == 'eqv' and a in x[1:]]
                go = [x['on'] for x in again if isinstance(x['on'], bool)]
                if len(stop) == 1 and len(go) == 1:
                    ok = go[0] == (not stop[0][1])
                    self.alt = (a, [z for z in stop[0][0][1:] if z != a])
                    return self.judge(R, f, key + ' alternating path', ok, 'lapjv (%s) %s the alternating path when it has %s its starting row' % (where, 'continues' if go[0] else 'ends', 'reached' if stop[0][1] else 'not reached'))
                return self.C.undecided(R, key + ' alternating path')
            return self.judge(R, f, key + ' alternating path', False, 'lapjv (%s): after column %s goes to row %s the path continues at %s instead of the column that row had' % (where, txt(b), txt(a), txt(nxt)))
        return self.judge(R, f, key + ' kept', False, 'lapjv (%s) gives column %s to row %s although it may belong to another row, which is not released' % (where, txt(b), txt(a)))

    def free_rows(self, rs):
        """rows without a column after the initial pass are listed; the list is used in full"""
        f, base = self.lf, self.base
        R = 'rows without a column are collected and assigned'
        for r in rs:
            ev = r['events']
            top = [e['on'] for e in ev if e['op'] == 'loop']
            init = [k for k, x in enumerate(top) if self.columnloop(x)]
            if not init:
                if top: self.C.undecided(R, 'lapjv: no initial pass')
                continue
            counters = {x['on'] for q in top[init[0]]['paths'] for x in q['events'] if x['op'] == 'aw' and x['on'] not in (('A', '#col'), ('A', '#row')) and base(x['val']) == ladd(('at', x['on'], base(x['key'])), lin(1))}
            if len(counters) != 1:
                self.C.undecided(R, 'lapjv: counter'); continue
            c = next(iter(counters))
            for n in (1, 2, 3):
                fin = {}
                for e in ev[:[k for k, e in enumerate(ev) if e['op'] == 'loop' and e['on'] is top[init[0]]][0]]:
                    pass
                E = Env({('dim',): n})
                zero = set()
                for x in top[:init[0]]:
                    for X, ps in runs(x, E):
                        for t, p, es in ps:
                            for y in es:
                                if y[0] == 'w' and y[1] == c[1] and y[3] == 0 and t and len(ps) == 1: zero.add(y[2])
                fill = any(e['op'] == 'fill' and e['on'] == c and const(aslin(e['val'])) == 0 and e.get('size') in (None, ('dim',)) for e in ev)
                touched = any(y['op'] in ('aw', 'fill') and y['on'] == c for x in top[:init[0]] for q in x['paths'] for y in q['events']) or any(e['op'] == 'fill' and e['on'] == c for e in ev)
                modelled = all(x['loopvar'] is not None for x in top[:init[0]]) and not any(e['op'] == 'fill' and e['on'] == c for e in ev)
                self.judge(R, f, 'counter starts at zero for %d' % n, True if fill or zero == set(range(n)) else None if touched and not modelled else False, 'lapjv does not clear %s for every row before counting: %s of %d' % (c[1], sorted(zero, key=str), n))
            # list
            lists = []
            for x in top[init[0] + 1:]:
                for q in x['paths']:
                    for y in q['events']:
                        sym = x['syms'].get(x['loopvar'])
                        if y['op'] == 'aw' and y['val'] == sym and base(y['key']) in [base(s) for s in x['syms'].values()] and base(y['key']) != sym:
                            lists.append((x, q, y))
            if not lists:
                self.C.undecided(R, 'lapjv: list of free rows'); continue
            x = lists[0][0]
            lst = lists[0][2]['on']
            cd = [d for d, s in x['syms'].items() if s == lists[0][2]['key']]
            for n in (1, 2, 3):
                for k in (0, 1, 2):
                    E = Env({('dim',): n}, lambda name, i: k if name == c[1] else None)
                    rows = []
                    for X, ps in runs(x, E):
                        for t, p, es in ps:
                            w = [y for y in es if y[0] == 'w' and y[1] == lst[1]]
                            if w: rows.append((X.e.get(x['syms'][x['loopvar']]), t, cd and p['upd'].get(cd[0]) == ladd(x['syms'][cd[0]], lin(1))))
                    want = list(range(n)) if k == 0 else []
                    ok = [q[0] for q in rows] == want and all(q[2] for q in rows)
                    self.judge(R, f, 'list of %d rows with count %d' % (n, k), ok, 'lapjv lists rows %s as free when every one of %d rows was chosen by %d columns' % ([q[0] for q in rows], n, k))
            if cd:
                self.judge(R, f, 'list starts empty', const(x['pre'][cd[0]]) == 0, 'lapjv does not start the list of free rows at zero')
            # the last loop taking rows from the list runs over all of it
            use = [y for y in top[init[0] + 1:] if y is not x and any(e['op'] == 'decl' and e.get('val') and base(e['val']) == ('at', lst, y['syms'].get(y['loopvar'])) for q in y['paths'] for e in q['events'])]
            if not use:
                aug = [y for y in top[init[0] + 1:] if y is not x and y['loopvar'] is not None]
                fixed = [(y, e) for y in aug for q in y['paths'] for e in q['events'] if e['op'] == 'decl' and e.get('val') and e['val'][0] == 'at' and base(e['val'][1]) == lst and const(aslin(e['val'][2])) is not None]
                if fixed:
                    self.judge(R, f, 'every free row is used', False, 'lapjv augments from %s in every pass' % txt(base(fixed[0][1]['val']))); continue
                self.C.undecided(R, 'lapjv: augmentation loop'); continue
            u = use[-1]
            sym = u['syms'][u['loopvar']]
            g = {base(aa) for q in u['paths'] for aa, qq in q['path'] if aa[0] == 'pos' and sym in [s for s, _ in aa[1][2]]}
            last = None
            for n in (0, 1, 3):
                E = Env({}, None, None, lambda v: n if v[0] == 'post' else None)
                try:
                    vs = [X.e.get(sym) for X, ps in runs(u, E)]
                except Unk:
                    vs = None
                self.judge(R, f, 'every free row is used, %d' % n, None if vs is None or None in vs else vs == list(range(n)), 'lapjv augments for entries %s of a list of %d free rows' % (vs, n))
            # the end of an augmenting path is an unassigned column
            self.endpoints(u)
            self.search(u, ('at', lst, sym))

    def search(self, u, start):
        """the shortest path search: predecessors and the list of columns"""
        f, base = self.lf, self.base
        R = 'predecessors lead back to the free row'
        alt = getattr(self, 'alt', None)
        if alt is None or alt[0][0] != 'at':
            return self.C.undecided(R, 'lapjv')
        pred = alt[0][1]
        self.judge(R, f, 'lapjv ends at its row', alt[1] == [start] if alt[1] else None, 'lapjv ends the alternating path at row %s although it started from %s' % (alt[1] and txt(alt[1][0]), txt(start)))
        # arrays columns are drawn from: those indexing colsol
        drawn = set()

        def terms(v):
            if isinstance(v, tuple):
                if v and v[0] == 'at' and v[1] == ('A', '#col') and v[2][0] == 'at' and v[2][1][0] == 'A' and v[2][1][1][0] != '#':
                    drawn.add(v[2][1])
                for z in v: terms(z)

        def leaves(rec, nest):
            for q in rec['paths']:
                yield rec, nest + [rec], q
                for e in q['events']:
                    if e['op'] == 'loop':
                        yield from leaves(e['on'], nest + [rec])
        allp = [z for r in [u] for z in leaves(r, [])]
        for rec, nest, q in allp:
            for a, _ in q['path']: terms(base(a))
        seen = set()
        for rec, nest, q in allp:
            ev = [e for e in q['events'] if e['op'] == 'aw']
            pw = [e for e in ev if e['on'] == pred]
            others = [e for e in ev if e['on'][1][0] != '#' and e['on'] != pred and e['on'] not in drawn]
            for e in pw:
                k, v = base(e['key']), base(e['val'])
                lv = rec['syms'].get(rec['loopvar'])
                if k == lv:
                    for n in (1, 2, 3):
                        js = [X.e.get(lv) for X, ps in runs(rec, Env({('dim',): n}))]
                        self.judge(R, f, 'initial %d' % n, js == list(range(n)) and len(rec['paths']) == 1, 'lapjv sets the first predecessors of columns %s of %d only' % (js, n))
                    self.judge(R, f, 'initial row', v == start, 'lapjv starts with predecessor %s of every column for free row %s' % (txt(v), txt(start)))
                    seen.add('init')
                else:
                    self.judge(R, f, 'scanned row', v[0] == 'at' and v[1] == ('A', '#col'), 'lapjv records row %s as predecessor, not the row of the column scanned' % txt(v))
                    same = [base(x['key']) for x in others] + [base(w) for d, w in q['upd'].items() if d in self.ends]
                    self.judge(R, f, 'improved column', all(x == k for x in same), 'lapjv records the predecessor of column %s when column %s is reached' % (txt(k), txt([x for x in same if x != k][0]) if [x for x in same if x != k] else ''))
            # a distance improved without its predecessor
            if others and not pw and any(x['on'] == pred for r2, n2, q2 in allp if r2 is rec for x in q2['events'] if x['op'] == 'aw'):
                self.judge(R, f, 'distance with predecessor', False, 'lapjv changes the distance of column %s without its predecessor' % txt(base(others[0]['key'])))
        if 'init' not in seen:
            self.C.undecided(R, 'lapjv: first predecessors')
        R2 = 'the list of columns stays a permutation'
        for L in drawn:
            ident = False
            for rec, nest, q in allp:
                ws = [e for e in q['events'] if e['op'] == 'aw' and e['on'] == L]
                if not ws: continue
                lv = rec['syms'].get(rec['loopvar'])
                if len(ws) == 1 and base(ws[0]['key']) == lv and not any(e['op'] == 'loop' for e in q['events']) and len(rec['paths']) == 1:
                    js = [[X.e.get(lv) for X, ps in runs(rec, Env({('dim',): n}))] for n in (1, 2, 3)]
                    ident = True
                    self.judge(R2, f, 'lapjv initial', base(ws[0]['val']) == lv and js == [[0], [0, 1], [0, 1, 2]], 'lapjv starts %s with %s at position %s for positions %s' % (L[1], txt(base(ws[0]['val'])), txt(lv), js))
                    continue
                fin = {}
                for e in ws: fin[base(e['key'])] = base(e['val'])
                ok = {('at', L, k) for k in fin} == set(fin.values()) and len(set(fin.values())) == len(fin)
                self.judge(R2, f, 'lapjv exchange', ok, 'lapjv writes %s: not an exchange of two entries' % ', '.join('%s[%s] = %s' % (L[1], txt(k), txt(v)) for k, v in fin.items()))
            if not ident:
                self.C.undecided(R2, 'lapjv ' + L[1])

    def endpoints(self, u):
        f, base = self.lf, self.base
        R = 'an augmenting path ends at an unassigned column'
        alt = set()

        def find(rec):
            for q in rec['paths']:
                for e in q['events']:
                    if e['op'] == 'aw' and e['on'] == ('A', '#col'):
                        for d, s in rec['syms'].items():
                            if base(s) == base(e['key']): alt.add((rec['name'].get(d), d))
                    if e['op'] == 'loop': find(e['on'])
        find(u)
        ends = self.ends = {d for _, d in alt}

        def go(rec, inalt):
            here = inalt or any(e['op'] == 'aw' and e['on'] == ('A', '#col') for q in rec['paths'] for e in q['events'])
            for q in rec['paths']:
                if not here:
                    for d in ends:
                        v = q['upd'].get(d)
                        if v is None or v[0] in ('post', 'car'): continue
                        want = ('zero', aslin(ladd(('at', ('A', '#col'), base(v)), lin(1))))
                        ok = (want, True) in [(base(a), p) for a, p in q['path']]
                        self.judge(R, f, 'lapjv ' + (rec['name'].get(d) or ''), ok, 'lapjv ends an augmenting path at column %s which is not known to be unassigned' % txt(base(v)))
                for e in q['events']:
                    if e['op'] == 'loop': go(e['on'], here)
        go(u, False)

    def ranges(self, rs):
        """loops over columns or rows given by the dimension use indices inside the lists"""
        f = self.lf
        for n in (2, 3):
            sizes = {'#row': n, '#col': n, '#v': n, '#u': n, '#cost': n * n, 'd': n, 'pred': n, 'collist': n, 'matches': n, 'free': n}
            for r in rs:
                E = Env({('dim',): n}, None, sizes)
                if E.path(r['path']) is False: continue
                try:
                    effects(r['events'], E)
                    self.C.instance('indices stay inside the matrix', 'lapjv dim=%d path %s' % (n, len(r['path'])))
                except Out as e:
                    self.C.bad('indices stay inside the matrix', 'lapjv ' + str(e).split('[')[0], loc(f), 'lapjv uses an element outside of its lists: %s' % e)
                except Unk as e:
                    self.C.undecided('indices stay inside the matrix', 'lapjv: %s' % e)

    def umins(self):
        fs = [f for f in self.F.concrete() if f['fn'] == 'find_umins_plain' and f.get('body')]
        if not fs:
            return self.C.undecided('function present', 'find_umins_plain')
        f = sorted(fs, key=lambda f: f['f'])[0]
        I = LInterp(self.F, set())
        I.names = {p['d']: p['n'] for p in f['params']}
        I.asize = {}
        try:
            rs = I.function(f, [('dim',), ('i',), ('A', '#cost'), ('A', '#v')], None)
        except Unk as e:
            return self.C.undecided('interpretation', 'find_umins_plain: %s' % e)
        self.C.instance('functions interpreted', 'find_umins_plain')
        R = 'the two smallest reduced costs are kept with their columns'
        for r in rs:
            v = r['val']
            loops = [e['on'] for e in r['events'] if e['op'] == 'loop']
            if len(loops) != 1 or not v or v[0] != 'tuple' or len(v) != 5:
                self.C.undecided(R, 'find_umins'); continue
            rec = loops[0]
            inv = {s: d for d, s in rec['post'].items()}
            ds = [inv.get(x) for x in v[1:]]
            if None in ds:
                self.C.undecided(R, 'find_umins: result'); continue
            m, sm, j1, j2 = ds
            # first candidate
            pre = rec['pre']
            for n in (1, 2, 3):
                for i in range(n):
                    E = Env({('dim',): n, ('i',): i}, lambda name, k: {'#cost': 100 + k, '#v': 10 * k}.get(name), {'#cost': n * n, '#v': n})
                    try:
                        js = [X.e.get(rec['syms'][rec['loopvar']]) for X, ps in runs(rec, E)]
                        first = E.val(pre[j1])
                        if first is None or first < 0:
                            ok = js == list(range(n))
                        else:
                            ok = sorted([first] + js) == list(range(n)) and E.val(pre[m]) == 100 + i * n + first - 10 * first
                        self.judge(R, f, 'candidates of row %d of %d' % (i, n), ok, 'find_umins considers columns %s after starting at %s for row %d of %d' % (js, first, i, n))
                    except Out as e:
                        self.C.bad(R, 'find_umins index', loc(f), 'find_umins uses an element outside of the matrix: %s' % e)
            n, i = 3, 1
            for um, us, h in itertools.product((4, 6), (4, 6, 8), (3, 4, 5, 6, 7, 8, 9)):
                if us < um: continue
                jj = rec['syms'][rec['loopvar']]
                E = Env({('dim',): n, ('i',): i, jj: 2, rec['syms'][m]: um, rec['syms'][sm]: us, rec['syms'][j1]: 0, rec['syms'][j2]: 1}, lambda name, k: {'#cost': h + 50 if k == i * n + 2 else 999, '#v': 50 if k == 2 else 0}.get(name))
                got = []
                for p in rec['paths']:
                    t = E.path(p['path'])
                    if t is False: continue
                    got.append((t, tuple(E.val(p['upd'].get(d, rec['syms'][d])) for d in ds)))
                if len(got) != 1 or got[0][0] is None or None in got[0][1]:
                    self.C.undecided(R, 'find_umins update'); continue
                g = got[0][1]
                cand = {0: um, 1: us, 2: h}
                vals = sorted(cand.values())[:2]
                ok = [g[0], g[1]] == vals and g[2] != g[3] and cand.get(g[2]) == g[0] and cand.get(g[3]) == g[1]
                self.judge(R, f, 'update (%d, %d) with %d' % (um, us, h), ok, 'find_umins with smallest %d (column 0), second %d (column 1) and candidate %d (column 2) keeps %s' % (um, us, h, g))


def txt(v):
    if v is None:
        return '?'
    if isinstance(v, tuple) and v:
        if v[0] == 'lin':
            s = ' + '.join([('%s' if k == 1 else '%d*%%s' % k) % txt(a) for a, k in v[2]] + ([str(v[1])] if v[1] or not v[2] else []))
            return s
        if v[0] in ('car', 'post'):
            return str(v[1])
        if v[0] == 'at':
            return '%s[%s]' % (str(v[1][1]).replace('#row', 'rowsol').replace('#col', 'colsol').strip('#') if v[1][0] == 'A' else '?', txt(v[2]))
        if v[0] == 'tget':
            return '%s#%d' % (v[1][1], v[2])
        if len(v) == 1:
            return str(v[0])
        if v[0] == 'mul':
            return '%s*%s' % (txt(v[1]), txt(v[2]))
    return str(v)


def run(tier):
    C = Check('P28', tier, 'Munkres and lapjv are interpreted one loop body at a time; every path keeps its guards and effects. Munkres: the effects left for each state of the generic element (mark, row cover, column cover, zero cost), on 2x2 and 3x3 index ranges, equal the decision table of the method. lapjv: each write to one assignment list is paired with the inverse write and accounts for the previous owner of the column.')
    F = C.facts(['d_util.cpp'])
    P = P28(C, F)
    for fn in (P.reset, P.run_assignment, P.step_one, P.step_two, P.step_three, P.find_a_zero, P.get_col_of_star_in_row, P.step_four, P.step_five, P.step_six, P.get_assignment):
        P.guarded(fn)
    P.lapjv()
    P.umins()
    C.floor('functions interpreted', 4)
    C.assumptions += ['cost values behave like numbers: comparison of costs is a total order and equal costs subtract to zero',
                      'the vectorised find_umins for AVX2 is not compiled in this build and not analysed',
                      'termination of the solvers is not decided']
    return C.finish()
