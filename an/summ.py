"""Builds value-graph summaries of functions from the extracted trees (see terms.py for the value domain)."""
import re
from fractions import Fraction
from core import strip_t, bare, is_nonconst_ref, is_nonconst_ptr
from terms import *
import terms
import tval

INT_T = re.compile(r'^(unsigned |signed )?(char|short|int|long|long long|bool)( int)?$|^(un)?signed$|^unsigned long long$|^__int128|^size_t$|^long$')


def isint(t):
    return bool(INT_T.match(bare(t)))


def isfloat(t):
    return bare(t) in ('double', 'float', 'long double')


def iscomplex(t):
    return bare(t).startswith('std::complex<')


def isarith(t):
    return isint(t) or isfloat(t) or iscomplex(t)


class State:
    __slots__ = ('st', 'maps', 'alias')

    def __init__(self, st=None, maps=(), alias=None):
        self.st = dict(st or {}); self.maps = tuple(maps); self.alias = dict(alias or {})

    def copy(self):
        return State(self.st, self.maps, self.alias)


class Undecided(Exception):
    pass


class Thrown(Exception):
    """A callee evaluated in place throws on every path (object mode)."""


def root(l):
    while l[0] in ('at', 'fld', 'ptr', 'sub'):
        l = l[1]
    return l


class Summary:
    """value: returned term (None for void); final: State; facts about what was not understood in .opaque"""


class Eval:
    def __init__(self, F, inline_depth=5, no_inline=(), inline_ok=None, budget=60000, unroll=0):
        self.unroll = unroll       # loops whose condition folds to a constant are unrolled up to this many rounds
        self.F = F
        self.depth = 0
        self.maxdepth = inline_depth
        self.no_inline = no_inline
        self.inline_ok = inline_ok
        self.writes = []          # stack of write logs
        self.lams = {}
        self.budget = budget
        self.stack = []
        self.lamstate = None
        self.notes = []

    # ---------- entry
    def function(self, fn, args=None, this=None, state=None):
        """Summarise fn. args: optional list of argument terms/locations; state: what is already known of memory."""
        s = state.copy() if state is not None else State()
        for i, p in enumerate(fn['params']):
            self.bind_param(s, p, i, args[i] if args else None)
        self.this = this or ('this',)
        self.stack.append(fn['f'])
        try:
            return self.run_body(fn, s)
        except Thrown:
            r = Summary()
            r.value, r.final, r.exits = ('throw', None), None, [('throw', TRUE, None, s)]
            return r
        finally:
            self.stack.pop()

    def bind_param(self, s, p, i, val):
        base = val if val is not None else ('param', i, p['n'])
        t = p['t']
        d = p['d']
        if val is None:
            if t.endswith('&'):
                s.alias[d] = base
            elif re.sub(r'\s*const$', '', t).endswith('*'):
                s.st[('var', d)] = ('ptr', base, ZERO)
            else:
                s.st[('var', d)] = base
        elif t.endswith('&') and val[0] in ('var', 'fld', 'at', 'param', 'this'):
            s.alias[d] = val
        else:
            s.st[('var', d)] = val

    def run_body(self, fn, s):
        exits = []
        self.runinits(fn, s)
        n, ex = self.block([fn['body']], s)
        r = Summary()
        val, fin = None, n
        rets = [e for e in ex if e[0] in ('return', 'throw') and e[1] != FALSE]
        for kind, c, v, st in reversed(rets):
            if kind == 'throw':
                v = ('throw', v) if v is not None else ('throw', None)
            if val is None and fin is None:
                val, fin = v, st
            else:
                val = ite(c, v, val) if (val is not None and v is not None) else (v if v is not None else val)
                if kind != 'throw':
                    fin = self.merge(c, st, fin)
        r.value, r.final, r.exits = val, fin, ex
        return r

    # ---------- statements
    def block(self, stmts, s):
        """Runs stmts; returns (normal state or None, exits)."""
        exits = []
        for x in stmts:
            if s is None:
                break
            s, ex = self.stmt(x, s)
            exits += ex
        return s, exits

    def stmt(self, n, s):
        if not self.objects:
            return self.stmt0(n, s)
        try:
            return self.stmt0(n, s)
        except Thrown:
            return None, [('throw', TRUE, None, s)]

    def stmt0(self, n, s):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('budget')
        if n is None:
            return s, []
        k = n['k']
        if k == 'block':
            return self.block(n['c'], s)
        if k == 'null':
            return s, []
        if k == 'decl':
            for v in n['c']:
                self.decl(v, s)
            return s, []
        if k == 'return':
            v = None
            if n.get('e'):
                rt = self.rettypes[-1] if getattr(self, 'rettypes', None) else ''
                v = self.lvalue(n['e'], s) if rt.endswith('&') else self.retval(n['e'], s)
            return None, [('return', TRUE, v, s)]
        if k == 'if':
            if n.get('init'):
                s, ex0 = self.stmt(n['init'], s)
            if n.get('cvar'):
                self.decl(n['cvar'], s)
            c = self.cond(n['cond'], s)
            if c == TRUE:
                return self.stmt(n['then'], s)
            if c == FALSE:
                return self.stmt(n.get('else'), s) if n.get('else') else (s, [])
            a, ea = self.stmt(n['then'], s.copy())
            b, eb = self.stmt(n['else'], s.copy()) if n.get('else') else (s.copy(), [])
            ex = [(q, AND(c, cc), v, st) for q, cc, v, st in ea] + [(q, AND(NOT(c), cc), v, st) for q, cc, v, st in eb]
            if a is None:
                return b, ex
            if b is None:
                return a, ex
            return self.merge(c, a, b), ex
        if k in ('for', 'while', 'do', 'forrange') and self.unroll:
            r = self.unrolled(n, s)
            if r is not None:
                return r
        if k == 'for':
            return self.forloop(n, s)
        if k == 'forrange':
            return self.forrange(n, s)
        if k in ('while', 'do'):
            return self.havoc_loop(n, s)
        if k == 'break':
            return None, [('break', TRUE, None, s)]
        if k == 'continue':
            return None, [('continue', TRUE, None, s)]
        if k == 'switch':
            return self.switch(n, s)
        if k == 'omp':
            return self.stmt(n.get('body'), s)
        if k == 'try':
            return self.stmt(n['body'], s)
        if k == 'throw':
            v = n.get('et', '')
            return None, [('throw', TRUE, v, s)]
        if k.startswith('other:') or k in ('goto', 'label'):
            raise Undecided(k)
        if k == 'call' and n.get('noret'):
            return None, [('throw', TRUE, n.get('fn'), s)]
        self.rv(n, s)
        return s, []

    def retval(self, e, s):
        """A returned array is the list of its elements at the time of the return."""
        m = re.match(r'^std::array<.*, (\d+)(?:UL)?>$', bare(e.get('t', '')))
        if m and int(m.group(1)) <= 64:
            x = e
            while (x['k'] == 'ctor' and (x.get('copy') or x.get('move')) and len(x['args']) == 1) or (x['k'] == 'cast' and x.get('e')):
                x = x['args'][0] if x['k'] == 'ctor' else x['e']
            l = self.lvalue(x, s) if x['k'] in ('ref', 'mem') else None
            if l is not None:
                return ('list',) + tuple(self.read(('at', l, num(i)), s) for i in range(int(m.group(1))))
        return self.rv(e, s)

    def switch(self, n, s):
        cv = self.rv(n['cond'], s)
        # flatten body into labelled segments
        body = n['body']['c'] if n['body'] and n['body']['k'] == 'block' else [n['body']]
        segs = []   # (labels, stmts)

        def unwrap(x):
            labs = []
            while x is not None and x['k'] in ('case', 'default'):
                labs.append(('case', x['val']) if x['k'] == 'case' else ('default', None))
                x = x['body']
            return labs, x
        for x in body:
            labs, y = unwrap(x)
            if labs:
                segs.append((labs, [y] if y else []))
            elif segs:
                segs[-1][1].append(x)
        ex_all = []
        results = []
        conds = []
        for i, (labs, _) in enumerate(segs):
            c = FALSE
            for kind, v in labs:
                if kind == 'case':
                    c = OR(c, cmp('==', cv, self.rv(v, s)))
            isdef = any(kind == 'default' for kind, _ in labs)
            conds.append((c, isdef))
        anycase = OR(*[c for c, _ in conds]) if conds else FALSE
        outs = []
        for i, (labs, _) in enumerate(segs):
            c, isdef = conds[i]
            if isdef:
                c = OR(c, NOT(anycase))
            st = s.copy()
            run = []
            for j in range(i, len(segs)):
                run += segs[j][1]
            st2, ex = self.block(run, st)
            rets = []
            for q, cc, v, es in ex:
                if q == 'break':
                    if st2 is None:
                        st2 = es
                    else:
                        st2 = self.merge(cc, es, st2)
                else:
                    rets.append((q, AND(c, cc), v, es))
            ex_all += rets
            if st2 is not None:
                outs.append((c, st2))
        if not any(d for _, d in conds):
            outs.append((NOT(anycase), s.copy()))
        if not outs:
            return None, ex_all
        cur = outs[-1][1]
        for c, st in reversed(outs[:-1]):
            cur = self.merge(c, st, cur)
        return cur, ex_all

    def merge(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = State(alias={**b.alias, **a.alias})
        ks = list(a.st) + [x for x in b.st if x not in a.st]
        for l in ks:
            va = a.st[l] if l in a.st else self.read(l, a, quiet=True)
            vb = b.st[l] if l in b.st else self.read(l, b, quiet=True)
            if va is None or vb is None:
                va = va if va is not None else opaque('unset'); vb = vb if vb is not None else opaque('unset')
            r.st[l] = ite(c, va, vb)
        if a.maps == b.maps:
            r.maps = a.maps
        else:
            # keep the common prefix; conditional element-wise writes after it
            p = 0
            while p < len(a.maps) and p < len(b.maps) and a.maps[p] == b.maps[p]:
                p += 1
            r.maps = a.maps[:p] + tuple(('cond', AND(c, m[1]) , *m[2:]) for m in a.maps[p:]) + tuple(('cond', AND(NOT(c), m[1]), *m[2:]) for m in b.maps[p:])
        return r

    # ---------- declarations
    def decl(self, v, s):
        l = ('var', v['d'])
        t = v['t']
        if v.get('bind'):
            val = self.rv(v['init'], s) if v.get('init') else opaque('bind')
            for i, b in enumerate(v['bind']):
                s.st[('var', b['d'])] = self.get(val, i)
            return
        if v.get('static'):
            s.st[l] = opaque('static')
            return
        if t.endswith('&') and v.get('init'):
            ini = v['init']
            while ini['k'] == 'init' and len(ini['c']) == 1 and bare(ini.get('t', t)) == bare(t):
                ini = ini['c'][0]
            loc = self.lvalue(ini, s)
            if loc is not None:
                s.alias[v['d']] = loc
                return
            if ini is not v['init']:
                s.st[l] = self.rv(ini, s)
                return
            s.st[l] = self.rv(v['init'], s)
            return
        if v.get('init') and not (v['init']['k'] == 'ctor' and t.endswith(']')):
            s.st[l] = self.rv(v['init'], s)
        else:
            s.st[l] = ('uninit', v['d'])

    def get(self, val, i):
        if val[0] == 'tuple':
            return val[1 + i] if 1 + i < len(val) else opaque('get')
        if val[0] == 'ite':
            return ite(val[1], self.get(val[2], i), self.get(val[3], i))
        return ('call', 'get%d' % i, val)

    # ---------- memory
    def write(self, l, v, s):
        for log in self.writes:
            log.append(l)
        if l[0] == 'at':
            # other cells of the same base whose index may coincide become unknown
            for o in [o for o in s.st if o[0] == 'at' and o[1] == l[1] and o != l]:
                d = const(sub(o[2], l[2]))
                if d is None:
                    if not self.disjoint(o[2], l[2]):
                        s.st[o] = opaque('aliased')
        elif l[0] in ('var', 'fld', 'param'):
            for o in [o for o in s.st if o != l and o[0] in ('at', 'fld') and self.under(o, l)]:
                del s.st[o]
        s.st[l] = v

    def under(self, o, l):
        while o[0] in ('at', 'fld'):
            o = o[1]
            if o == l:
                return True
        return False

    def disjoint(self, a, b):
        return False

    hook = None        # what a check knows about some callees
    objects = False    # class values are evaluated to records of their members

    def overlay(self, l, v, s):
        """The whole value v of location l with the members written separately since."""
        if v[0] == 'ite' and self.recs(v):
            if any(o[0] in ('at', 'fld') and self.under(o, l) for o in s.st):
                names = [k for k, _ in self.recs(v)[0][1:]]
                return ('rec',) + tuple((k, self.read(('fld', l, k), s)) for k in names)
            return v
        if v[0] == 'rec':
            if any(o[0] in ('at', 'fld') and self.under(o, l) for o in s.st):
                return ('rec',) + tuple((k, self.read(('fld', l, k), s)) for k, _ in v[1:])
            return v
        if v[0] == 'list':
            new = None
            for o, w in s.st.items():
                if o[0] == 'at' and o[1] == l:
                    c = const(o[2])
                    if c is None:
                        return opaque('alias')
                    if 0 <= c < len(v) - 1:
                        new = new or list(v)
                        new[1 + int(c)] = w
            if new:
                return tuple(new)
            if any(o[0] in ('at', 'fld') and self.under(o, l) for o in s.st):
                return ('list',) + tuple(self.overlay(('at', l, num(i)), x, s) for i, x in enumerate(v[1:]))
        return v

    def recs(self, v):
        """The records a conditional value chooses between, None if it is not that."""
        if v[0] == 'rec':
            return [v]
        if v[0] == 'ite':
            a, b = self.recs(v[2]), self.recs(v[3])
            return a + b if a and b else None
        return None

    def fldof(self, v, name):
        if v[0] == 'rec':
            for k, x in v[1:]:
                if k == name:
                    return x
        if v[0] == 'ite' and self.recs(v):
            return ite(v[1], self.fldof(v[2], name), self.fldof(v[3], name))
        return ('fld', v, name)

    def read(self, l, s, quiet=False):
        if self.objects and l[0] in ('var', 'fld', 'at'):
            v = self.read1(l, s, quiet)
            return v if v is None else self.overlay(l, v, s)
        return self.read1(l, s, quiet)

    def read1(self, l, s, quiet=False):
        if l in s.st:
            v = s.st[l]
            if v[0] == 'list' and l[0] in ('var', 'fld'):
                new = None
                for o, w in s.st.items():
                    if o[0] == 'at' and o[1] == l:
                        c = const(o[2])
                        if c is None:
                            return opaque('alias')
                        if 0 <= c < len(v) - 1:
                            new = new or list(v)
                            new[1 + int(c)] = w
                if any(m[2] == l for m in s.maps):
                    return ('list',) + tuple(self.read(('at', l, num(i)), s) for i in range(len(v) - 1))
                if new:
                    return tuple(new)
            return v
        h = l[0]
        if h == 'at':
            base, idx = l[1], l[2]
            for m in reversed(s.maps):
                if m[2] != base:
                    continue
                r = self.from_map(m, idx)
                if r is None:
                    return opaque('map')
                if r is False:
                    continue
                return r
            for o in s.st:
                if o[0] == 'at' and o[1] == base:
                    if const(sub(o[2], idx)) is None:
                        return opaque('alias')
            bv = self.basevalue(base, s)
            return self.elem(bv, idx)
        if h == 'fld':
            if self.objects and l[1][0] in ('fld', 'at') and l[1] not in s.st:
                return self.fldof(self.read1(l[1], s), l[2])
            return self.fldof(self.basevalue(l[1], s), l[2])
        if h == 'var':
            return None if quiet else opaque('unset')
        return l

    def basevalue(self, b, s):
        if b in s.st:
            return s.st[b]
        if b[0] in ('at', 'fld'):
            return self.read(b, s)
        if b[0] == 'var':
            return b
        return b

    def elem(self, v, idx):
        if v[0] == 'list':
            c = const(idx)
            if c is not None and 0 <= c < len(v) - 1:
                return v[1 + int(c)]
            if c is not None and v[0] == 'list' and c >= len(v) - 1:
                return opaque('oob')
        if v[0] == 'fillall':
            return v[1]
        if v[0] == 'uninit':
            return ('at', v, idx)
        return ('at', v, idx)

    def from_map(self, m, idx):
        """The value of cell idx after the element-wise write m: term, False when surely not covered, None when unknown."""
        tag, c, base, bvs, mi, val = m
        if c != TRUE:
            return None
        # exact pattern: single bound variable, index = bv*a + b
        if len(bvs) == 1:
            bv, lo, hi = bvs[0]
            p = topoly(mi)
            co = ZERO; rest = ZERO
            for mo, cc in p.items():
                if any(at == bv for at, _ in mo):
                    if sum(pw for at, pw in mo if at == bv) != 1:
                        return None
                    co = add(co, frompoly({tuple(x for x in mo if x[0] != bv): cc}))
                else:
                    rest = add(rest, frompoly({mo: cc}))
            k = const(co)
            if k is None or contains(rest, bv):
                return None
            t = frompoly({mm: cc / k for mm, cc in topoly(sub(idx, rest)).items()})
            rng = self.inrange(t, lo, hi)
            if rng is True:
                return subst(val, {bv: t})
            if rng is False:
                return ite(AND(cmp('<=', lo, t), cmp('<', t, hi)), subst(val, {bv: t}), ('at', base, idx))
            if not contains(val, bv) and k == 1:
                return None
            return None
        # several bound variables: match identical linear patterns by renaming
        return self.match_multi(bvs, mi, val, idx)

    def match_multi(self, bvs, mi, val, idx):
        import itertools
        cand = [x for x in subterms(idx) if x[0] == 'bv']
        cand = list(dict.fromkeys(cand))
        if len(cand) < len(bvs):
            # constant indices
            return None
        for perm in itertools.permutations(cand, len(bvs)):
            mp = {b[0]: p for b, p in zip(bvs, perm)}
            if subst(mi, mp) == idx and all(self.ranges.get(p) == (subst(b[1], mp), subst(b[2], mp)) for b, p in zip(bvs, perm)):
                return subst(val, mp)
        return None

    ranges = {}

    def bounds(self, t):
        """(min,max) terms of t over the ranges of its bound variables, assuming non-negative symbolic factors."""
        lo, hi = t, t
        for x in [x for x in subterms(t) if x[0] == 'bv']:
            if x not in self.ranges:
                return None
            a, b = self.ranges[x]
            p = topoly(t)
            sign = None
            for mo, c in p.items():
                if any(at == x for at, _ in mo):
                    sg = c > 0
                    if sign is None:
                        sign = sg
                    elif sign != sg:
                        return None
            if sign is None:
                return None
            last = sub(b, ONE)
            lo = subst(lo, {x: a if sign else last}); hi = subst(hi, {x: last if sign else a})
        return lo, hi

    def inrange(self, t, lo, hi):
        b = self.bounds(t)
        if b is None:
            return None
        d1, d2 = const(sub(b[0], lo)), const(sub(hi, b[1]))
        if d1 is not None and d2 is not None:
            return d1 >= 0 and d2 >= 1
        return None

    # ---------- loops
    def induction(self, n, s):
        """(decl id or loc, lo, hi) of a unit-stride counted loop (any direction), or None."""
        ini = n.get('init')
        if ini is None:
            return None
        if ini['k'] == 'decl':
            if len(ini['c']) != 1:
                return None
            d = ini['c'][0]
            if not d.get('init'):
                return None
            var = ('var', d['d']); start = self.rv(d['init'], s); isref = False
            t = d['t']
        elif ini['k'] == 'bin' and ini['op'] == '=':
            var = self.lvalue(ini['a'], s)
            if var is None or var[0] != 'var':
                return None
            start = self.rv(ini['b'], s); t = ini['a']['t']
        else:
            return None
        if not isint(t):
            return None
        inc = n.get('inc'); step = None
        if inc is None:
            return None
        if inc['k'] == 'un' and inc['op'] in ('++', '--'):
            if self.lvalue(inc['e'], s) == var:
                step = 1 if inc['op'] == '++' else -1
        elif inc['k'] == 'bin' and inc['op'] in ('+=', '-=') and self.lvalue(inc['a'], s) == var:
            c = const(self.rv(inc['b'], s))
            if c == 1:
                step = 1 if inc['op'] == '+=' else -1
        if step is None:
            return None
        c = n.get('cond')
        while c is not None and c['k'] == 'cast':
            c = c['e']
        if c is None or c['k'] != 'bin':
            return None
        op, a, b = c['op'], c['a'], c['b']

        def strip(x):
            while x['k'] == 'cast' and isint(x['t']):
                x = x['e']
            return x
        la = self.lvalue(strip(a), s) if strip(a)['k'] == 'ref' else None
        lb = self.lvalue(strip(b), s) if strip(b)['k'] == 'ref' else None
        if la == var:
            e = self.rv(b, s)
        elif lb == var:
            e = self.rv(a, s); op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}.get(op, op)
        else:
            return None
        if step == 1 and op in ('<', '!='):
            return var, start, e, 1
        if step == 1 and op == '<=':
            return var, start, add(e, ONE), 1
        if step == -1 and op == '>=':
            return var, e, add(start, ONE), -1
        if step == -1 and op == '>':
            return var, add(e, ONE), add(start, ONE), -1
        return None

    def forloop(self, n, s):
        ind = self.induction(n, s)
        if ind is None:
            if n.get('init'):
                s, _ = self.stmt(n['init'], s)
            return self.havoc_loop(n, s)
        var, lo, hi, step = ind
        bv = ('bv', fresh())
        return self.loop(n['body'], s, var, bv, lo, hi, bv, step)

    def unrolled(self, n, s0):
        """Full unrolling of a loop all of whose tests fold to constants; None if one does not."""
        s = s0.copy()
        k = n['k']
        exits, broken, notbroken = [], [], TRUE
        logs = [len(w) for w in self.writes]
        if n.get('init'):
            s, ex = self.stmt(n['init'], s)
        items = None
        if k == 'forrange' and self.objects and n.get('ds'):
            d = n['ds']
            for x in (d['range'], d['begin'], d['end']):
                s, _ = self.stmt(x, s)
            n = {'k': 'for', 'cond': d['cond'], 'inc': d['inc'], 'body': {'k': 'block', 'c': [d['var'], n['body']]}}
            k = 'for'
        if k == 'forrange':
            base = self.lvalue(n['range'], s)
            if base is None:
                base = self.rv(n['range'], s)
            c = const(self.sizeof(base, s))
            v = n.get('var')
            if c is None or v is None or v.get('bind') or c > self.unroll:
                return None
            items = [('at', base, num(i)) for i in range(int(c))]
        it = 0
        while True:
            if it > self.unroll:
                return None
            if items is not None:
                if it >= len(items):
                    break
                if v['t'].endswith('&'):
                    s.alias[v['d']] = items[it]
                else:
                    s.st[('var', v['d'])] = self.read(items[it], s)
            elif n.get('cond') is not None and not (k == 'do' and it == 0):
                c = self.cond(n['cond'], s)
                if c == FALSE:
                    break
                if c != TRUE:
                    return None
            end, ex = self.stmt(n['body'], s)
            for q, c, v2, st in ex:
                if q == 'continue':
                    end = self.merge(c, st, end)
                elif q == 'break':
                    broken.append((AND(notbroken, c), st)); notbroken = AND(notbroken, NOT(c))
                else:
                    exits.append((q, AND(notbroken, c), v2, st))
            s = end
            if s is None:
                break
            if n.get('inc') is not None:
                self.rv(n['inc'], s)
            it += 1
        for c, st in reversed(broken):
            s = self.merge(c, st, s)
        return s, exits

    def forrange(self, n, s):
        if n.get('init'):
            s, _ = self.stmt(n['init'], s)
        base = self.lvalue(n['range'], s)
        if base is None:
            base = self.rv(n['range'], s)
        v = n.get('var')
        bv = ('bv', fresh())
        hi = self.sizeof(base, s)
        if v is None or v.get('bind'):
            return self.havoc_loop(n, s)
        cell = ('at', base, bv)
        if v['t'].endswith('&'):
            s = s.copy(); s.alias[v['d']] = cell
            return self.loop(n['body'], s, None, bv, ZERO, hi, None, 1)
        return self.loop(n['body'], s, ('var', v['d']), bv, ZERO, hi, ('readcell', cell), 1)

    def sizeof(self, base, s, node=None):
        m = re.match(r'^std::array<.*, (\d+)(?:UL)?>$', bare(node['t'])) if node is not None else None
        if m:
            return num(int(m.group(1)))
        v = s.st.get(base, base) if base[0] in ('var', 'fld', 'at', 'param', 'this') else base
        if self.objects and v == base and base[0] in ('fld', 'at'):
            v = self.read(base, s)
        if v[0] == 'list':
            return num(len(v) - 1)
        if base in s.st:
            return ('call', 'size', s.st[base])
        return ('call', 'size', base)

    def loop(self, body, s, var, bv, lo, hi, varval, step):
        clo, chi = const(lo), const(hi)
        if clo is not None and chi is not None and clo >= chi:
            if var is not None:
                s.st[var] = lo
            return s, []
        self.ranges = dict(self.ranges); self.ranges[bv] = (lo, hi)
        entry = s.copy()
        # probe pass: what does the body write?
        probe = s.copy()
        if var is not None:
            probe.st[var] = self.read(varval[1], probe) if varval and varval[0] == 'readcell' else varval
        log = []
        self.writes.append(log)
        nb = terms._n[0]
        try:
            pst, pex = self.stmt(body, probe)
        finally:
            self.writes.pop()
        if step == -1 and any(q == 'break' for q, *_ in pex):
            return self.havoc_written(entry, log, var), []
        written = list(dict.fromkeys(log))
        newmaps = self.newmaps(entry, pst, pex)
        # a cell not indexed by this loop's variable is loop-carried
        carried = [l for l in written if l != var and not self.mentions(l, bv) and self.outer(l, entry)]
        st = s.copy()
        if var is not None:
            st.st[var] = self.read(varval[1], st) if varval and varval[0] == 'readcell' else varval
        phis = {}
        uid = fresh()
        for l in carried:
            phis[l] = ('phi', uid, l)
            st.st[l] = phis[l]
        # written bases whose cells are indexed by bv: reads of other cells are unknown; handled below
        self.writes.append([])
        try:
            end, ex = self.stmt(body, st)
        finally:
            log2 = self.writes.pop()
        for l in log2:
            if l != var and not self.mentions(l, bv) and self.outer(l, entry) and l not in phis:
                return self.havoc_written(entry, log + log2, var), self.havoc_exits(ex)
        rets = [e for e in ex if e[0] in ('return', 'throw') and e[1] != FALSE]
        brks = [e for e in ex if e[0] == 'break']
        for q, c, v, es in ex:
            if q == 'continue':
                end = self.merge(c, es, end)
        out = entry.copy()
        # closed forms of induction-like variables first
        final = {}
        sub1 = {}
        if end is not None:
            for l, ph in phis.items():
                v = end.st.get(l, ph)
                old = self.read(l, entry)
                cnt = sub(bv, lo) if step == 1 else sub(sub(hi, ONE), bv)
                if v == ph:
                    sub1[ph] = old
                elif v[0] == 'poly' and v == neg(ph):
                    sub1[ph] = mul(old, ('alt', cnt)); final[l] = mul(old, ('alt', sub(hi, lo)))
                else:
                    d = sub(v, ph) if v[0] in ('poly', 'phi') or True else None
                    c = const(d)
                    if c is not None and not isbool(v):
                        sub1[ph] = add(old, mul(num(c), cnt)); final[l] = add(old, mul(num(c), sub(hi, lo)))
        R = (lambda t: subst(t, sub1)) if sub1 else (lambda t: t)
        allphi = set(phis.values()) - set(sub1)
        anyphi = lambda t: has(t, lambda x: x in allphi)
        # cells of written bases
        wb = {}
        if end is not None:
            for l, v in end.st.items():
                if l[0] == 'at' and self.outer(l, entry) and (entry.st.get(l) != v or l in written):
                    if self.mentions(l, bv):
                        wb.setdefault(l[1], []).append(l)

        def clean(t, own):
            """Does t read a cell that another iteration writes?"""
            for x in subterms(t):
                if x[0] == 'at' and x[1] in wb:
                    ok = any(x == w for w in wb[x[1]]) and len(wb[x[1]]) >= 1 and self.injective(x[2], bv)
                    if not ok:
                        return False
            return True
        # break handling
        bc = None
        if brks:
            bc = OR(*[R(c) for _, c, _, _ in brks])
            if anyphi(bc) or not clean(bc, None):
                return self.havoc_written(entry, log, var), self.havoc_exits(ex)
        ex_out = []
        stop = FALSE
        for q, c, v, es in rets:
            c2 = R(c)
            v2 = R(v) if isinstance(v, tuple) else v
            if anyphi(c2) or not clean(c2, None):
                c2 = opaque('retcond')
            if isinstance(v2, tuple) and (anyphi(v2) or contains(v2, bv)):
                v2 = ('firstof', bv, c2, v2) if not anyphi(v2) else opaque('retval')
            e2 = entry.copy()
            ex_out.append((q, self.exists(bv, lo, hi, c2), v2, self.havoc_written(e2, log, var)))
        if end is None and not brks:
            # every iteration leaves the loop: at most one iteration
            o = entry.copy()
            return o, ex_out
        for l, ph in phis.items():
            old = self.read(l, entry)
            if l in final and not brks:
                out.st[l] = final[l]; continue
            v = R(end.st.get(l, ph)) if end is not None else ph
            if brks:
                vb = [R(b[3].st.get(l, ph)) for b in brks]
                if sub1.get(ph) == old:
                    vb = [old if x == old else x for x in vb]
                if all(x == vb[0] for x in vb) and not anyphi(vb[0]) and not contains(vb[0], bv) and v in (ph, old):
                    out.st[l] = ite(self.exists(bv, lo, hi, bc), vb[0], old)
                elif all(x in (ph, old) for x in vb) and v in (ph, old):
                    out.st[l] = old
                else:
                    out.st[l] = opaque('break')
                continue
            if v == ph or v == old and sub1.get(ph) == old:
                out.st[l] = old
                continue
            if not clean(v, None):
                out.st[l] = opaque('carried-read'); continue
            out.st[l] = self.fold(v, ph, allphi, bv, lo, hi, old, anyphi)
        for b, ls in wb.items():
            for l in ls:
                v = R(end.st[l])
                if brks or anyphi(v) or anyphi(l) or not clean(v, l) or not self.injective(l[2], bv):
                    v = opaque('map')
                    if brks or not self.injective(l[2], bv):
                        self.kill_base(out, b)
                        continue
                for o in [o for o in out.st if o[0] == 'at' and o[1] == b]:
                    del out.st[o]
                out.maps = out.maps + (('map', TRUE, b, ((bv, lo, hi),), R(l[2]), v),)
        # element-wise writes made by inner loops
        for m in newmaps_of(entry, end):
            tag, c, b, bvs, mi, val = m
            c, mi, val = R(c), R(mi), R(val)
            bad = brks or anyphi(val) or anyphi(mi) or anyphi(c)
            if not bad:
                for x in subterms(val):
                    if x[0] == 'at' and x[1] == b and x[2] != mi:
                        bad = True
            if bad:
                self.kill_base(out, b); continue
            if not has(mi, lambda x: x == bv):
                # the same cells rewritten every iteration: last one wins if the value does not depend on the iteration
                if contains(val, bv):
                    v2 = subst(val, {bv: sub(hi, ONE)}) if not contains(val, ('at', b, mi)) else opaque('rewrite')
                    out.maps = out.maps + ((tag, c, b, bvs, mi, v2),)
                else:
                    out.maps = out.maps + ((tag, c, b, bvs, mi, val if not contains(val, ('at', b, mi)) else opaque('rewrite')),)
                continue
            out.maps = out.maps + ((tag, c, b, ((bv, lo, hi),) + bvs, mi, val),)
        # scalar locations written with bv in them (fields of cells etc.)
        if end is not None:
            for l, v in end.st.items():
                if l[0] == 'fld' and self.mentions(l, bv) and self.outer(l, entry):
                    out.st[l] = opaque('field-of-cell')
        if var is not None:
            if varval and varval[0] != 'readcell':
                out.st[var] = hi if step == 1 else sub(lo, ONE)
            else:
                out.st.pop(var, None)
        if end is not None:
            for d, a in end.alias.items():
                out.alias.setdefault(d, a)
        return out, ex_out

    def newmaps(self, a, b, ex):
        return ()

    def exists(self, bv, lo, hi, c):
        if c == FALSE:
            return FALSE
        if c == TRUE or not contains(c, bv):
            return AND(c, cmp('<', lo, hi))
        return ('exists', bv, lo, hi, c)

    def forall(self, bv, lo, hi, c):
        if c == TRUE:
            return TRUE
        return ('not', ('exists', bv, lo, hi, NOT(c)))

    def fold(self, v, ph, allphi, bv, lo, hi, old, anyphi):
        others = lambda t: has(t, lambda x: x in allphi and x != ph)
        if others(v):
            return opaque('coupled')
        if not contains(v, ph):
            ne = cmp('<', lo, hi)
            vv = subst(v, {bv: sub(hi, ONE)}) if contains(v, bv) else v
            return ite(ne, vv, old)
        if v[0] == 'and':
            rest = [x for x in v[1:] if x != ph]
            if not any(contains(x, ph) for x in rest):
                return AND(old, self.forall(bv, lo, hi, AND(*rest)))
        if v[0] == 'or':
            rest = [x for x in v[1:] if x != ph]
            if not any(contains(x, ph) for x in rest):
                return OR(old, self.exists(bv, lo, hi, OR(*rest)))
        d = self.delta(v, ph)
        if d is not None and not contains(d, ph):
            return add(old, mksum(bv, lo, hi, d))
        if v[0] == 'poly' and len(v[1]) == 1:
            (m, c), = v[1]
            if any(at == ph and p == 1 for at, p in m):
                rest = frompoly({tuple(x for x in m if x[0] != ph): c})
                if not contains(rest, ph):
                    return mul(old, ('prod', bv, lo, hi, rest))
        if v[0] == 'ite' and v[1][0] == 'cmp' and v[1][1] in ('lt', 'le'):
            op, x, y = v[1][1:]
            a, b = v[2], v[3]
            # (phi<e ? e : phi) max ; (e<phi ? e : phi) min
            if x == ph and a == y and b == ph or y == ph and b == x and a == ph:
                e = y if x == ph else x
                if not contains(e, ph):
                    return ('call', 'std::max', *sorted((old, ('maxf', bv, lo, hi, e)), key=key))
            if y == ph and a == x and b == ph or x == ph and a == ph and b == y:
                e = x if y == ph else y
                if not contains(e, ph):
                    return ('call', 'std::min', *sorted((old, ('minf', bv, lo, hi, e)), key=key))
        if v[0] == 'call' and v[1] in ('std::max', 'std::min') and ph in v[2:]:
            e = [x for x in v[2:] if x != ph]
            if len(e) == 1 and not contains(e[0], ph):
                return call(v[1], old, (v[1][5:] + 'f', bv, lo, hi, e[0]))
        return opaque('fold')

    def delta(self, v, ph):
        """t with v = ph + t, pushing through gated values."""
        if v == ph:
            return ZERO
        if v[0] == 'ite':
            if contains(v[1], ph):
                return None
            a, b = self.delta(v[2], ph), self.delta(v[3], ph)
            if a is None or b is None:
                return None
            return ite(v[1], a, b)
        if v[0] == 'poly':
            p = dict(v[1])
            k = ((ph, 1),)
            if p.get(k) == 1:
                del p[k]
                t = frompoly(p)
                return None if contains(t, ph) else t
            # a gated value times one may contain ph
            for mo, c in list(p.items()):
                if len(mo) == 1 and mo[0][1] == 1 and mo[0][0][0] == 'ite' and c == 1 and contains(mo[0][0], ph):
                    d = self.delta(mo[0][0], ph)
                    if d is None:
                        return None
                    del p[mo]
                    t = frompoly(p)
                    return None if contains(t, ph) else add(t, d)
        return None

    def injective(self, idx, bv):
        p = topoly(idx)
        co = False
        for mo, c in p.items():
            for at, pw in mo:
                if at == bv:
                    if pw != 1:
                        return False
                    co = True
                elif contains(at, bv):
                    return False
        return co

    def mentions(self, l, bv):
        return contains(l, bv)

    def outer(self, l, entry):
        r = root(l)
        if r[0] == 'var':
            return r in entry.st
        return True

    def kill_base(self, s, b):
        for o in [o for o in s.st if o[0] == 'at' and o[1] == b]:
            del s.st[o]
        s.maps = s.maps + (('map', opaque('killed'), b, (), ZERO, opaque('killed')),)

    def havoc_written(self, s, log, var):
        o = s.copy()
        for l in log:
            r = root(l)
            if r[0] == 'var' and r not in s.st and r != l:
                continue
            if l[0] == 'at':
                self.kill_base(o, l[1])
            elif l[0] != 'var' or l in s.st:
                o.st[l] = opaque('havoc')
        if var is not None:
            o.st[var] = opaque('havoc')
        return o

    def havoc_exits(self, ex):
        return [(q, opaque('exit'), opaque('exit') if isinstance(v, tuple) else v, st) for q, c, v, st in ex if q in ('return', 'throw')]

    def havoc_loop(self, n, s):
        probe = s.copy()
        log = []
        self.writes.append(log)
        ex = []
        try:
            # two passes so that values written in the first are visible in the second
            for part in ('cond', 'body', 'inc'):
                if n.get(part):
                    if part == 'body':
                        _, e = self.stmt(n[part], probe.copy()); ex += e
                    else:
                        self.rv(n[part], probe.copy())
        finally:
            self.writes.pop()
        o = self.havoc_written(s, log, None)
        return o, self.havoc_exits(ex)

    # ---------- expressions
    def cond(self, n, s):
        return self.tobool(self.rv(n, s))

    def tobool(self, v):
        if isbool(v):
            return v
        c = const(v)
        if c is not None:
            return TRUE if c else FALSE
        if v[0] == 'ite':
            return ite(v[1], self.tobool(v[2]), self.tobool(v[3]))
        if v[0] == 'boolv':
            return v
        return cmp('!=', v, ZERO)

    def lvalue(self, n, s):
        """Location term of an lvalue expression, None if it is not one we track."""
        k = n['k']
        if k == 'ref':
            d = n.get('d')
            if d is None:
                return None
            if d in s.alias:
                return s.alias[d]
            if n.get('dk') in ('local', 'param', 'binding', 'static'):
                return ('var', d)
            return ('glob', n.get('q', n['n']))
        if k == 'this':
            return self.this
        if k == 'mem':
            if n.get('fn') and 'f' in n and n.get('dk') is None and n.get('pt') is not None:
                return None
            b = self.obj(n['e'], s)
            return ('fld', b, n['n'])
        if k == 'idx':
            p = self.rv(n['e'], s)
            i = self.rv(n['i'], s)
            return self.deref(p, i)
        if k == 'un' and n['op'] == '*':
            p = self.rv(n['e'], s)
            return self.deref(p, ZERO)
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            self.rv(n, s)
            return self.lvalue(n['e'], s)
        if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            self.rv(n, s)
            return self.lvalue(n['a'], s)
        if k == 'cast':
            if n.get('ck') in ('NoOp', 'DerivedToBase', 'BaseToDerived'):
                return self.lvalue(n['e'], s)
            return None
        if k == 'call':
            q = strip_t(n.get('q', ''))
            if (n.get('opr') == '[]' or (n.get('fn') in ('at', 'operator[]') and n.get('obj'))) and not (self.objects and n.get('in')):
                ob = n['args'][0] if n.get('opr') == '[]' and 'obj' not in n or n.get('opr') == '[]' else n['obj']
                ix = n['args'][1:] if n.get('opr') == '[]' else n['args']
                b = self.obj(ob, s)
                bt = bare(ob['t'])
                i = self.rv(ix[0], s)
                if b[0] == 'ptr' or bt.endswith('*'):
                    return self.deref(b, i)
                return ('at', b, i)
            if n.get('opr') == '*' and len(n['args']) == 1 and not (self.objects and n.get('in')):
                p = self.rv(n['args'][0], s)
                return self.deref(p, ZERO)
            if q in ('std::move', 'std::forward', 'std::as_const') and len(n['args']) == 1:
                return self.lvalue(n['args'][0], s)
            if n.get('fn') in ('val',) and n.get('obj') and n.get('in') and not getattr(self, 'inline_val', False):
                b = self.obj(n['obj'], s)
                ix = [self.rv(a, s) for a in n['args']]
                return ('at', b, ix[0] if len(ix) == 1 else ('sub',) + tuple(ix))
            if n.get('fn') in ('front', 'back') and n.get('obj'):
                b = self.obj(n['obj'], s)
                return ('at', b, ZERO if n['fn'] == 'front' else sub(self.sizeof(b, s), ONE))
            if n.get('opr') in ('+=', '-=', '*=', '/=', '=') and not (self.objects and n.get('in')):
                self.rv(n, s)
                return self.lvalue(n['args'][0], s)
            r = self.call(n, s, want_loc=True)
            if isinstance(r, tuple) and r and r[0] in ('at', 'fld', 'var', 'param', 'this'):
                return r
            return None
        if k == 'cond':
            return None
        return None

    def deref(self, p, i):
        if p[0] == 'ptr' and p[1][0] == 'rev':
            return ('at', p[1][1], sub(sub(p[1][2], ONE), add(p[2], i)))
        if p[0] == 'ptr':
            return ('at', p[1], add(p[2], i))
        if p[0] == 'addr':
            if i == ZERO:
                return p[1]
            if p[1][0] == 'at':
                return ('at', p[1][1], add(p[1][2], i))
        if p[0] == 'poly':
            # pointer arithmetic on an opaque pointer atom
            ats = [m[0][0] for m, c in p[1] if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('ptr',)]
            if len(ats) == 1:
                off = sub(p, ats[0])
                return ('at', ats[0][1], add(ats[0][2], add(off, i)))
        if p[0] in ('this',):
            return p
        return ('at', p, i)

    def obj(self, n, s):
        """Identity of the object an expression denotes: a location if there is one, else its value."""
        t = n['t']
        if re.sub(r'\s*const$', '', t).endswith('*') and n['k'] != 'this':
            p = self.rv(n, s)
            l = self.deref(p, ZERO)
            if p[0] == 'addr':
                return p[1]
            if p[0] == 'ptr':
                return l
            return p if p[0] != 'ptr' else l
        l = self.lvalue(n, s)
        if l is not None:
            # an object that was assigned as a whole and never touched since is known by its value
            return l
        v = self.rv(n, s)
        if self.objects and self.recs(v):
            l = ('var', 'tmp%d' % fresh())
            s.st[l] = v
            return l
        return v

    def rv(self, n, s):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('budget')
        if n is None:
            return opaque('none')
        k = n['k']
        if k == 'cast' and n.get('ck') == 'ToVoid':
            self.rv(n['e'], s); return ZERO
        if k in ('bool',):
            return TRUE if n['v'] == '1' else FALSE
        if k in ('int', 'char'):
            return num(int(n['v']))
        if k == 'float':
            return num(Fraction(n['fv'].replace('E', 'e'))) if re.match(r'^-?[\d.]+(E[+-]?\d+)?$', n['fv']) else ('fl', n['fv'])
        if k == 'str':
            return ('str', n.get('s', ''))
        if k == 'nullptr':
            return ('null',)
        if k == 'zero':
            return ZERO if isarith(n['t']) else ('list',)
        if k == 'this':
            return ('addr', self.this)
        if k == 'ref':
            if n.get('dk') == 'enum':
                return ('enum', n['q'])
            if n.get('dk') == 'func':
                return ('func', n.get('q'))
            if 'v' in n and n.get('dk') in ('global', 'static', 'NonTypeTemplateParm') and n.get('t') != 'bool':
                return num(int(n['v']))
            if 'v' in n and bare(n['t']) == 'bool' and n.get('dk') in ('global',):
                return TRUE if n['v'] == '1' else FALSE
            if 'fv' in n and n.get('dk') in ('global', 'static'):
                try:
                    return num(Fraction(n['fv'].replace('E', 'e')))
                except ValueError:
                    return ('glob', n['q'])
            l = self.lvalue(n, s)
            if l is None:
                return opaque('ref')
            if l[0] == 'glob':
                return l
            return self.read(l, s)
        if k in ('mem', 'idx'):
            if 'v' in n and n.get('dk') == 'global':
                return num(int(n['v']))
            l = self.lvalue(n, s)
            if l is None:
                return opaque('mem')
            return self.read(l, s)
        if k == 'cast':
            return self.castv(n, s)
        if k == 'cond':
            c = self.cond(n['c'], s)
            if c == TRUE:
                return self.rv(n['a'], s)
            if c == FALSE:
                return self.rv(n['b'], s)
            sa, sb = s.copy(), s.copy()
            a, b = self.guarded(n['a'], sa), self.guarded(n['b'], sb)
            m = self.merge(c, sa, sb)
            s.st, s.maps, s.alias = m.st, m.maps, m.alias
            return ite(c, a, b)
        if k == 'un':
            return self.unary(n, s)
        if k == 'bin':
            return self.binary(n, s)
        if k == 'call':
            return self.call(n, s)
        if k == 'ctor':
            return self.ctor(n, s)
        if k == 'init':
            t = bare(n['t'])
            if isarith(t) and len(n['c']) == 1 or len(n['c']) == 1 and n['c'][0] and n['c'][0]['k'] != 'init' and bare(n['c'][0].get('t', '')) == t:
                return self.rv(n['c'][0], s)
            if isarith(t) and not n['c']:
                return ZERO
            if t.startswith('std::array<') and len(n['c']) == 1 and n['c'][0] and n['c'][0]['k'] == 'init':
                return self.pad(self.rv(n['c'][0], s), t)
            return self.pad(('list',) + tuple(self.rv(x, s) for x in n['c']), t)
        if k == 'lambda':
            u = fresh()
            self.lams[u] = (n, s)
            return ('lam', u)
        if k == 'new':
            if n.get('arr'):
                return ('ptr', ('heap', fresh(), 'zero' if n.get('init') else ''), ZERO)
            return ('ptr', ('heap', fresh(), ''), ZERO)
        if k == 'delete':
            return ZERO
        if k == 'throw':
            return ('throw', n.get('et'))
        if k == 'sizeof':
            return num(int(n['v'])) if 'v' in n else ('sizeof', n['of'])
        if k == 'trait' and 'v' in n:
            return TRUE if n['v'] == '1' else FALSE
        if k == 'arrcopy':
            return self.rv(n['e'], s)
        if 'v' in n:
            return num(int(n['v']))
        for c in n.get('c', []) if isinstance(n.get('c'), list) else []:
            if isinstance(c, dict):
                try:
                    self.rv(c, s)
                except KeyError:
                    pass
        return opaque(k)

    def pad(self, v, t):
        m = re.match(r'^std::array<.*, (\d+)>$', t)
        if m and v[0] == 'list' and int(m.group(1)) <= 64:
            v = v + (ZERO,) * (int(m.group(1)) + 1 - len(v))
        return v

    def castv(self, n, s):
        ck = n.get('ck')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(self.rv(n['e'], s))
        v = self.rv(n['e'], s)
        if ck in ('FloatingToIntegral',):
            c = const(v)
            if c is not None:
                return num(int(c))
            return ('trunc', v)
        if ck == 'IntegralCast' and getattr(self, 'exact_int', False):
            return ('wrap', bare(n['t']), v)
        return v

    def guarded(self, n, s):
        try:
            return self.rv(n, s)
        except Thrown:
            return ('throw', None)

    def unary(self, n, s):
        op = n['op']
        if op == '&':
            l = self.lvalue(n['e'], s)
            if l is None:
                return opaque('addr')
            if l[0] == 'at':
                return ('ptr', l[1], l[2])
            return ('addr', l)
        if op == '*':
            return self.read(self.deref(self.rv(n['e'], s), ZERO), s)
        if op in ('++', '--'):
            l = self.lvalue(n['e'], s)
            if l is None:
                return opaque('incdec')
            old = self.read(l, s)
            if old[0] == 'ptr':
                new = ptr(old, ONE if op == '++' else num(-1))
            else:
                new = add(old, ONE if op == '++' else num(-1))
            self.write(l, new, s)
            return old if n.get('post') else new
        v = self.rv(n['e'], s)
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return NOT(self.tobool(v))
        if op == '~':
            return ('bit', '~', v, bare(n['t']))
        return opaque('un' + op)

    def arith(self, op, a, b, t):
        if op == '+':
            if a[0] == 'ptr':
                return ptr(a, b)
            if b[0] == 'ptr':
                return ptr(b, a)
            return add(a, b)
        if op == '-':
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
                return sub(a[2], b[2])
            if a[0] == 'ptr':
                return ptr(a, neg(b))
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if isint(t):
                ca, cb = const(a), const(b)
                if ca is not None and cb:
                    return num(int(Fraction(ca, cb)))
                if cb == 1:
                    return a
                return ('call', 'idiv', a, b)
            return div(a, b)
        if op == '%':
            ca, cb = const(a), const(b)
            if ca is not None and cb and ca >= 0:
                return num(ca % cb)
            return ('call', 'mod', a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            if op in ('&', '|') and isbool(a) and isbool(b) or (op in '&|' and (isbool(a) or isbool(b)) and a in (TRUE, FALSE) | {a} and isbool(a) and isbool(b)):
                return AND(a, b) if op == '&' else OR(a, b)
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None and ca >= 0 and cb >= 0 and ca.denominator == 1 and cb.denominator == 1:
                ca, cb = int(ca), int(cb)
                return num({'&': ca & cb, '|': ca | cb, '^': ca ^ cb, '<<': ca << cb, '>>': ca >> cb}[op])
            if op == '^' and isbool(a) and isbool(b):
                return ite(a, NOT(b), b)
            return ('bit', op, a, b)
        return opaque('arith' + op)

    def binary(self, n, s):
        op = n['op']
        if op == ',':
            self.rv(n['a'], s)
            return self.rv(n['b'], s)
        if op == '=':
            v = self.rv(n['b'], s)
            l = self.lvalue(n['a'], s)
            if l is None:
                return v
            self.write(l, v, s)
            return v
        if op in ('&&', '||'):
            a = self.cond(n['a'], s)
            if a == FALSE and op == '&&':
                return FALSE
            if a == TRUE and op == '||':
                return TRUE
            s2 = s.copy()
            try:
                b = self.cond(n['b'], s2)
            except Thrown:
                b = opaque('throws')
            if s2.st != s.st:
                m = self.merge(a if op == '&&' else NOT(a), s2, s.copy())
                s.st, s.maps, s.alias = m.st, m.maps, m.alias
            return AND(a, b) if op == '&&' else OR(a, b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return cmp(op, self.rv(n['a'], s), self.rv(n['b'], s))
        if op.endswith('=') and op[:-1] in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'):
            b = self.rv(n['b'], s)
            l = self.lvalue(n['a'], s)
            if l is None:
                return opaque('compound')
            a = self.read(l, s)
            if bare(n['a']['t']) == 'bool':
                a, b = self.tobool(a) if a[0] != 'phi' else a, self.tobool(b)
                v = AND(a, b) if op == '&=' else OR(a, b) if op == '|=' else self.arith(op[:-1], a, b, 'bool')
            else:
                # integer target with floating operand truncates
                t = n['a']['t']
                v = self.arith(op[:-1], a, b, t)
            self.write(l, v, s)
            return v
        a, b = self.rv(n['a'], s), self.rv(n['b'], s)
        return self.arith(op, a, b, n['t'])

    # ---------- calls
    def call(self, n, s, want_loc=False):
        q = strip_t(n.get('q', ''))
        fnm = n.get('fn', '')
        args = n['args']
        opr = n.get('opr')
        if opr and args:
            # library operators
            t0 = args[0]['t']
            inrepo = n.get('in')
            if opr == '()':
                cal = self.rv(args[0], s)
                return self.call_lambda(cal, n, args[1:], s)
            if opr == '[]' and not (self.objects and inrepo):
                l = self.lvalue(n, s)
                return l if want_loc else (self.read(l, s) if l is not None else opaque('idx'))
            if opr == '*' and len(args) == 1 and not (self.objects and inrepo):
                l = self.lvalue(n, s)
                return l if want_loc else (self.read(l, s) if l is not None else opaque('deref'))
            if not inrepo:
                if opr in ('+', '-', '*', '/') and len(args) == 2:
                    a, b = self.rv(args[0], s), self.rv(args[1], s)
                    if isarith(n['t']) or a[0] == 'ptr':
                        return self.arith(opr, a, b, n['t'])
                    return ('call', 'op' + opr, a, b)
                if opr == '-' and len(args) == 1:
                    return neg(self.rv(args[0], s))
                if opr in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
                    return cmp(opr, self.rv(args[0], s), self.rv(args[1], s))
                if opr in ('+=', '-=', '*=', '/='):
                    b = self.rv(args[1], s)
                    l = self.lvalue(args[0], s)
                    if l is None:
                        return opaque('opassign')
                    a = self.read(l, s)
                    if isarith(t0) or a[0] == 'ptr':
                        v = self.arith(opr[:-1], a, b, t0)
                    else:
                        v = ('call', 'op' + opr[:-1], a, b)
                    self.write(l, v, s)
                    return v
                if opr == '=':
                    b = self.rv(args[1], s)
                    x = args[0]
                    while x['k'] == 'cast' or (x['k'] == 'ctor' and len(x.get('args', [])) == 1):
                        x = x['e'] if x['k'] == 'cast' else x['args'][0]
                    if x['k'] == 'call' and strip_t(x.get('q', '')) == 'std::tie':
                        for i, a in enumerate(x['args']):
                            l = self.lvalue(a, s)
                            if l is not None:
                                self.write(l, self.get(b, i), s)
                        return b
                    l = self.lvalue(args[0], s)
                    if l is not None:
                        self.write(l, b, s)
                    return b
                if opr in ('++', '--'):
                    l = self.lvalue(args[0], s)
                    if l is None:
                        return opaque('incdec')
                    old = self.read(l, s)
                    new = ptr(old, ONE if opr == '++' else num(-1)) if old[0] == 'ptr' else add(old, ONE if opr == '++' else num(-1))
                    self.write(l, new, s)
                    return old if len(args) == 2 else new
        if 'fe' in n:
            cal = self.rv(n['fe'], s)
            return self.call_lambda(cal, n, args, s)
        if n.get('lam'):
            cal = self.rv(n['obj'], s) if 'obj' in n else opaque('lam')
            return self.call_lambda(cal, n, args, s)
        if self.hook is not None:
            r = self.hook(self, q, fnm, n, args, s)
            if r is not None:
                return r
        r = self.library(q, fnm, n, args, s)
        if r is not None:
            return r
        if 'f' in n:
            F = self.F.funcs.get(n['f'])
            if F is not None and self.can_inline(F, n) and not (self.objects and opr == '=' and F.get('defaulted')):
                r = self.inline(F, n, args, s, want_loc)
                if r is not None:
                    return r
            if self.objects and opr == '=' and len(args) == 2 and (F is None or F.get('defaulted')):
                b = self.rv(args[1], s)
                l = self.lvalue(args[0], s)
                if l is not None:
                    self.write(l, b, s)
                    return l if want_loc else b
        # unknown callee: a value of its arguments; mutable arguments become effects of the call
        return self.unknown(q, n, args, s)

    def can_inline(self, F, n):
        if F.get('dep') or F.get('body') is None:
            return False
        if len(self.stack) > self.maxdepth or (F['f'] in self.stack and not self.unroll):
            return False
        if F['fn'] in self.no_inline or F['sn'] in self.no_inline:
            return False
        if self.inline_ok is not None and not self.inline_ok(F):
            return False
        return True

    def content(self, a, n, s):
        """The value an argument carries into an unknown callee."""
        v = self.rv(a, s)
        return v

    def unknown(self, q, n, args, s):
        av = []
        locs = []
        pts = n.get('pt', [])
        xs = list(args)
        shift = 0
        if n.get('opr') and 'obj' not in n and len(args) == len(pts) + 1:
            shift = 1    # operator member: first argument is the object
        for i, a in enumerate(xs):
            pt = pts[i - shift] if 0 <= i - shift < len(pts) else ''
            v = self.rv(a, s)
            if v[0] == 'ptr' and (any(o[0] == 'at' and o[1] == v[1] for o in s.st) or any(m[2] == v[1] for m in s.maps)):
                w = self.memval(v[1], s)
                v = ('mem', w, v[2])
            av.append(v)
            if is_nonconst_ref(pt) or (shift and i == 0 and not n.get('const')):
                l = self.lvalue(a, s)
                if l is not None:
                    locs.append((i, 'ref', l))
            elif is_nonconst_ptr(pt):
                p = self.rv(a, s)
                if p[0] == 'ptr':
                    locs.append((i, 'ptr', p[1]))
        o = None
        if 'obj' in n:
            o = self.obj(n['obj'], s)
            ov = s.st.get(o, o)
            av = [ov] + av
            if not n.get('const') and not n.get('static'):
                locs.append((-1, 'ref', o))
        name = q or n.get('fn', '?')
        if n.get('targs'):
            name += n['targs']
        for i, kind, l in locs:
            eff = ('eff', name, i) + tuple(av)
            if kind == 'ref':
                self.write(l, eff, s)
            else:
                for log in self.writes:
                    log.append(('at', l, ('whole',)))
                for oo in [oo for oo in s.st if oo[0] == 'at' and oo[1] == l]:
                    del s.st[oo]
                s.maps = tuple(m for m in s.maps if m[2] != l) + (('map', TRUE, l, ((('bv', 'any%d' % fresh()), ZERO, ('inf',)),), ZERO, eff),)
                s.st[l] = eff
                s.maps = tuple(m for m in s.maps if m[2] != l)
        return call(name, *av)

    def memval(self, base, s):
        cells = tuple(sorted(((o[2], v) for o, v in s.st.items() if o[0] == 'at' and o[1] == base), key=key))
        maps = tuple(m for m in s.maps if m[2] == base)
        return ('memory', s.st.get(base, base), cells, maps)

    def clone(self, F):
        """A copy of F with fresh declaration ids, for a recursive activation."""
        self.nclone = getattr(self, 'nclone', 0) + 1
        off = self.nclone * 10 ** 9

        def go(x):
            if isinstance(x, dict):
                r = {k: go(v) for k, v in x.items()}
                if isinstance(x.get('d'), int) and (x.get('k') in ('var',) or 'k' not in x or x.get('dk') in ('param', 'local', 'binding')):
                    r['d'] = x['d'] + off
                return r
            if isinstance(x, list):
                return [go(y) for y in x]
            return x
        return {**F, 'params': go(F['params']), 'body': go(F['body'])}

    def inline(self, F, n, args, s, want_loc):
        if F['f'] in self.stack:
            F = self.clone(F)
        st = s
        self.stack.append(F['f'])
        saved_this = self.this
        saved_alias = dict(s.alias)
        try:
            params = F['params']
            xs = list(args)
            this = None
            if 'obj' in n:
                this = self.obj(n['obj'], s)
            elif n.get('opr') and F.get('cls') and not F.get('static'):
                this = self.obj(xs[0], s); xs = xs[1:]
            binds = []
            for i, p in enumerate(params):
                if i >= len(xs):
                    if p.get('def'):
                        binds.append((p, None, self.rv(p['def'], s)))
                        continue
                    return None
                a = xs[i]
                if p['t'].endswith('&'):
                    l = self.lvalue(a, s)
                    if l is not None:
                        binds.append((p, l, None)); continue
                binds.append((p, None, self.rv(a, s)))
            # fresh local names are not needed: declaration ids are unique per unit and recursion is not inlined, but a
            # function inlined twice must not see its previous locals
            for p, l, v in binds:
                s.alias.pop(p['d'], None)
                if l is not None:
                    s.alias[p['d']] = l
                else:
                    if p['t'].endswith('&'):
                        s.alias.pop(p['d'], None)
                    s.st[('var', p['d'])] = v
            if this is not None:
                self.this = this
            self.rettypes = getattr(self, 'rettypes', []) + [F['rt']]
            try:
                end, ex = self.stmt(F['body'], s.copy())
            finally:
                self.rettypes = self.rettypes[:-1]
            rets = [e for e in ex if e[0] in ('return', 'throw') and e[1] != FALSE]
            val, fin = None, end
            for kind, c, v, es in reversed(rets):
                if kind == 'throw':
                    if fin is None and val is None:
                        val, fin = ('throw', v), es
                    elif val is not None:
                        val = ite(c, ('throw', v), val)
                    continue
                if fin is None:
                    val, fin = v, es
                else:
                    val = ite(c, v, val) if (val is not None and v is not None) else (v if v is not None else val)
                    fin = self.merge(c, es, fin)
            if self.objects and end is None and rets and all(e[0] == 'throw' for e in rets):
                s.st, s.maps = rets[0][3].st, rets[0][3].maps
                raise Thrown()
            if fin is not None:
                s.st, s.maps = fin.st, fin.maps
            s.alias = saved_alias
            if val is None:
                val = ZERO
            if F['rt'].endswith('&') and not want_loc and isinstance(val, tuple) and val[0] in ('var', 'at', 'fld', 'param'):
                val = self.read(val, s)
            return val
        finally:
            self.stack.pop()
            self.this = saved_this
            s.alias = saved_alias

    def construct(self, F, xs, s, this=None):
        """The record an in-repository constructor makes (into `this` when it runs for a base or by delegation)."""
        own = this is None
        tmp = this or ('var', 'tmp%d' % fresh())
        saved_this, saved_alias = self.this, dict(s.alias)
        self.stack.append(F['f'])
        try:
            binds = []
            for i, p in enumerate(F['params']):
                if i >= len(xs) or xs[i].get('dflt') and xs[i]['k'] != 'cast' and p.get('def'):
                    if not p.get('def'):
                        return None
                    binds.append((p, None, self.rv(p['def'], s))); continue
                a = xs[i]
                l = self.lvalue(a, s) if p['t'].endswith('&') else None
                binds.append((p, l, None) if l is not None else (p, None, self.rv(a, s)))
            for p, l, v in binds:
                s.alias.pop(p['d'], None)
                if l is not None:
                    s.alias[p['d']] = l
                else:
                    s.st[('var', p['d'])] = v
            self.this = tmp
            self.runinits(F, s)
            end, ex = self.stmt(F['body'], s.copy())
            rets = [e for e in ex if e[0] in ('return', 'throw') and e[1] != FALSE]
            if rets:
                fin = end
                for kind, c, v, es in reversed(rets):
                    if kind != 'throw':
                        fin = es if fin is None else self.merge(c, es, fin)
                if fin is None:
                    raise Thrown()
                end = fin
            if end is None:
                raise Thrown()
            s.st, s.maps = end.st, end.maps
            if not own:
                return True
            names, seen = [], set()
            for o in s.st:
                while o[0] in ('at', 'fld') and o[1] != tmp:
                    o = o[1]
                if o[0] == 'fld' and o[2] not in seen:
                    seen.add(o[2]); names.append(o[2])
            r = ('rec',) + tuple((k, self.read(('fld', tmp, k), s)) for k in names)
            for o in [o for o in s.st if o[0] in ('at', 'fld') and self.under(o, tmp)]:
                del s.st[o]
            return r
        finally:
            self.stack.pop()
            self.this = saved_this
            s.alias = saved_alias

    def runinits(self, fn, s):
        for i in fn.get('inits', []) or []:
            if i.get('field'):
                l = ('fld', self.this, i['field'])
                s.st[l] = self.rv(i['e'], s) if i.get('e') else opaque('noinit')
            elif i.get('deleg') or i.get('base'):
                e = i.get('e')
                if e and self.objects and e['k'] == 'ctor' and e.get('f') in self.F.funcs and self.F.funcs[e['f']].get('body') is not None:
                    G = self.F.funcs[e['f']]
                    if (e.get('copy') or e.get('move')) and G.get('defaulted'):
                        v = self.rv(e['args'][0], s)
                        for r in (self.recs(v) or [])[:1]:
                            for k, _ in r[1:]:
                                s.st[('fld', self.this, k)] = self.fldof(v, k)
                    else:
                        self.construct(G, e['args'], s, this=self.this)
                elif e:
                    self.rv(e, s)

    def call_lambda(self, cal, n, args, s):
        if cal[0] == 'ite' and (cal[2][0] in ('lam', 'ite')) and (cal[3][0] in ('lam', 'ite')):
            sa, sb = s.copy(), s.copy()
            a, b = self.call_lambda(cal[2], n, args, sa), self.call_lambda(cal[3], n, args, sb)
            m = self.merge(cal[1], sa, sb)
            s.st, s.maps, s.alias = m.st, m.maps, m.alias
            return ite(cal[1], a, b)
        if cal[0] == 'lam' and len(self.stack) < self.maxdepth + 2:
            ln, cs = self.lams[cal[1]]
            node = ln
            body, params = ln['body'], ln['params']
            if ln.get('generic'):
                G = self.F.funcs.get(n.get('f'))
                if G is None:
                    return self.unknown('lambda', n, args, s)
                body, params = G['body'], G['params']
            vals = []
            for p, a in zip(params, args):
                if isinstance(a, tuple):
                    vals.append((p, None, a)); continue
                if p['t'].endswith('&'):
                    l = self.lvalue(a, s)
                    if l is not None:
                        vals.append((p, l, None)); continue
                vals.append((p, None, self.rv(a, s)))
            for c in ln.get('caps', []):
                if c.get('initcap') and c.get('init'):
                    s.st[('var', c['d'])] = self.rv(c['init'], s)
            for p, l, v in vals:
                s.alias.pop(p['d'], None)
                if l is not None:
                    s.alias[p['d']] = l
                else:
                    s.st[('var', p['d'])] = v
            self.stack.append('lambda%d' % cal[1])
            try:
                end, ex = self.stmt(body, s.copy())
            finally:
                self.stack.pop()
            rets = [e for e in ex if e[0] in ('return', 'throw') and e[1] != FALSE]
            val, fin = None, end
            for kind, c, v, es in reversed(rets):
                if kind == 'throw':
                    v = ('throw', v)
                if fin is None:
                    val, fin = v, es
                else:
                    val = ite(c, v, val) if (val is not None and v is not None) else (v if v is not None else val)
                    if kind != 'throw':
                        fin = self.merge(c, es, fin)
            if fin is not None:
                s.st, s.maps = fin.st, fin.maps
            return val if val is not None else ZERO
        if all(isinstance(a, dict) for a in args):
            return self.unknown('callable:' + show(cal), n, args, s)
        return opaque('callable')

    PURE1 = {'std::abs', 'abs', 'fabs', 'std::fabs', 'std::sqrt', 'sqrt', 'std::sin', 'std::cos', 'std::tan', 'std::acos', 'std::asin', 'std::atan', 'std::atan2',
             'std::exp', 'std::log', 'std::floor', 'std::ceil', 'std::round', 'std::lround', 'std::pow', 'pow', 'std::conj', 'std::real', 'std::imag', 'std::norm', 'std::arg',
             'std::isnan', 'std::hypot', 'std::cosh', 'std::sinh', 'std::tanh', 'cos', 'sin', 'tan', 'acos', 'exp', 'floor', 'atan2', 'std::polar', 'std::trunc', 'std::fmod'}

    def library(self, q, fnm, n, args, s):
        if q in self.PURE1:
            return call(q, *[self.rv(a, s) for a in args])
        if q in ('std::max', 'std::min') and len(args) == 2 and all(isarith(a['t']) for a in args):
            return call(q, self.rv(args[0], s), self.rv(args[1], s))
        if q in ('std::move', 'std::forward', 'std::as_const'):
            return self.rv(args[0], s)
        if q == 'std::tie' and n.get('t', '').find('tuple') >= 0:
            return ('tuple',) + tuple(self.rv(a, s) for a in args)
        if q in ('std::make_tuple', 'std::make_pair'):
            return ('tuple',) + tuple(self.rv(a, s) for a in args)
        if q == 'std::get' and len(args) == 1:
            m = re.search(r'get<(\d+)', n.get('q', ''))
            if m:
                return self.get(self.rv(args[0], s), int(m.group(1)))
        if q == 'std::swap' and len(args) == 2:
            a, b = self.lvalue(args[0], s), self.lvalue(args[1], s)
            if a is not None and b is not None:
                va, vb = self.read(a, s), self.read(b, s)
                self.write(a, vb, s); self.write(b, va, s)
                return ZERO
        if fnm in ('real', 'imag') and n.get('obj') and iscomplex(n['obj']['t']) and not args:
            return call('std::' + fnm, self.rv(n['obj'], s))
        if q.startswith('std::_Bit_reference::operator') and n.get('obj') is not None and not args:
            return self.rv(n['obj'], s)
        if not n.get('in') and n.get('obj') is not None:
            if fnm in ('size', 'length') and not args:
                return self.sizeof(self.obj(n['obj'], s), s, n['obj'])
            if fnm in ('data', 'begin', 'cbegin', 'c_str') and not args:
                return ('ptr', self.obj(n['obj'], s), ZERO)
            if fnm in ('end', 'cend') and not args:
                b = self.obj(n['obj'], s)
                return ('ptr', b, self.sizeof(b, s, n['obj']))
            if fnm in ('at', 'front', 'back'):
                l = self.lvalue(n, s)
                if l is not None:
                    return self.read(l, s)
            if fnm in ('rbegin', 'crbegin', 'rend', 'crend') and not args:
                b = self.obj(n['obj'], s)
                sz = self.sizeof(b, s, n['obj'])
                return ('ptr', ('rev', b, sz), ZERO if 'begin' in fnm else sz)
            if fnm in ('push_back', 'emplace_back', 'pop_back', 'clear', 'resize') and bare(n['obj']['t']).startswith('std::vector<'):
                b = self.obj(n['obj'], s)
                cur = self.read(b, s) if b[0] in ('var', 'fld') and b in s.st else None
                if fnm == 'clear' and b[0] in ('var', 'fld'):
                    self.write(b, ('list',), s)
                    return ZERO
                if cur is not None and cur[0] == 'list' and not any(m[2] == b for m in s.maps):
                    if fnm == 'pop_back' and len(cur) > 1:
                        self.write(b, cur[:-1], s)
                        return ZERO
                    if fnm in ('push_back', 'emplace_back') and len(args) == 1 and len(cur) <= 64:
                        self.write(b, cur + (self.rv(args[0], s),), s)
                        return ZERO
                    if fnm == 'resize':
                        k = const(self.rv(args[0], s))
                        if k is not None and 0 <= k <= 64 and k == int(k):
                            pad = self.rv(args[1], s) if len(args) > 1 and not args[1].get('dflt') else ZERO
                            self.write(b, (cur + (pad,) * int(k))[:int(k) + 1], s)
                            return ZERO
            if fnm == 'empty' and not args:
                return cmp('==', self.sizeof(self.obj(n['obj'], s), s), ZERO)
            if fnm == 'fill' and len(args) == 1:
                b = self.obj(n['obj'], s)
                self.write(b, ('fillall', self.rv(args[0], s)), s)
                return ZERO
        if n.get('in') and fnm in ('val',) and n.get('obj') is not None and not getattr(self, 'inline_val', False):
            l = self.lvalue(n, s)
            if l is not None:
                return self.read(l, s)
        if self.unroll and q in ('std::equal', 'std::accumulate', 'std::inner_product', 'std::reverse', 'std::transform_reduce') and len(args) >= 2:
            r = self.ranged(q, args, s)
            if r is not None:
                return r
        if q == 'std::fill' and len(args) == 3:
            a, b = self.rv(args[0], s), self.rv(args[1], s)
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
                ln = const(sub(b[2], a[2]))
                if self.unroll and ln is not None and ln <= 4 * self.unroll:
                    v = self.rv(args[2], s)
                    for i in range(int(ln)):
                        self.write(('at', a[1], add(a[2], num(i))), v, s)
                    return ZERO
                bv = ('bv', fresh())
                self.ranges = dict(self.ranges); self.ranges[bv] = (a[2], b[2])
                self.add_map(s, a[1], bv, a[2], b[2], bv, self.rv(args[2], s))
                return ZERO
        if q in ('std::copy', 'std::copy_n') and len(args) == 3:
            a, b, c = (self.rv(x, s) for x in args)
            if a[0] == 'ptr' and c[0] == 'ptr':
                ln = sub(b[2], a[2]) if (q == 'std::copy' and b[0] == 'ptr' and b[1] == a[1]) else (b if q == 'std::copy_n' else None)
                if ln is not None and self.unroll and const(ln) is not None and const(ln) <= 4 * self.unroll:
                    vs = [self.read(('at', a[1], add(a[2], num(i))), s) for i in range(int(const(ln)))]
                    for i, v in enumerate(vs):
                        self.write(('at', c[1], add(c[2], num(i))), v, s)
                    return ptr(c, ln)
                if ln is not None:
                    bv = ('bv', fresh())
                    self.ranges = dict(self.ranges); self.ranges[bv] = (ZERO, ln)
                    v = self.read(('at', a[1], add(a[2], bv)), s)
                    self.add_map(s, c[1], bv, ZERO, ln, add(c[2], bv), v)
                    return ZERO
        if q in ('std::any_of', 'std::all_of', 'std::none_of', 'std::count_if') and len(args) == 3:
            a, b = self.rv(args[0], s), self.rv(args[1], s)
            f = self.rv(args[2], s)
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1] and f[0] == 'lam':
                bv = ('bv', fresh())
                self.ranges = dict(self.ranges); self.ranges[bv] = (a[2], b[2])
                ln = self.lams[f[1]][0]
                p = ln['params'][0]
                s2 = s.copy()
                cell = ('at', a[1], bv)
                v = self.call_lambda(f, n, [self.read(cell, s2)], s2)
                if s2.st.keys() - s.st.keys() and any(k in s.st and s2.st[k] != s.st[k] for k in s.st):
                    return opaque('effect')
                v = self.tobool(v)
                if q == 'std::any_of':
                    return self.exists(bv, a[2], b[2], v)
                if q == 'std::none_of':
                    return NOT(self.exists(bv, a[2], b[2], v))
                if q == 'std::all_of':
                    return self.forall(bv, a[2], b[2], v)
                return mksum(bv, a[2], b[2], ite(v, ONE, ZERO))
        if q in ('std::accumulate', 'std::inner_product'):
            vs = [self.rv(x, s) for x in args]
            a, b = vs[0], vs[1]
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
                bv = ('bv', fresh())
                self.ranges = dict(self.ranges); self.ranges[bv] = (a[2], b[2])
                if q == 'std::accumulate' and len(vs) == 3:
                    return add(vs[2], mksum(bv, a[2], b[2], self.read(('at', a[1], bv), s)))
                if q == 'std::inner_product' and len(vs) == 4 and vs[2][0] == 'ptr':
                    return add(vs[3], mksum(bv, a[2], b[2], mul(self.read(('at', a[1], bv), s), self.read(('at', vs[2][1], add(vs[2][2], sub(bv, a[2]))), s))))
                if q == 'std::accumulate' and len(vs) == 4 and vs[3][0] == 'lam':
                    ph = ('phi', fresh(), 'acc')
                    v = self.call_lambda(vs[3], n, [ph, self.read(('at', a[1], bv), s)], s.copy())
                    return self.fold(v, ph, {ph}, bv, a[2], b[2], vs[2], None)
            return opaque('accumulate')
        if q == 'std::numeric_limits::epsilon' or q.startswith('std::numeric_limits'):
            m = re.match(r'std::numeric_limits<(.*)>::(\w+)', n.get('q', ''))
            if m:
                if m.group(2) == 'epsilon' and isint(m.group(1)):
                    return ZERO
                if m.group(2) in ('max', 'min', 'lowest') and m.group(2) + ':' + m.group(1) in tval.LIM and isint(m.group(1)):
                    return num(tval.LIM[m.group(2) + ':' + m.group(1)])
                return ('call', 'limit:' + m.group(2) + ':' + m.group(1))
        if q in ('std::remquo', 'remquo') and len(args) == 3:
            x, y, p = (self.rv(a, s) for a in args)
            l = self.deref(p, ZERO)
            if l is not None:
                self.write(l, ('call', 'quo', x, y), s)
                return ('call', 'std::remquo', x, y)
        return None

    def ranged(self, q, args, s):
        """Library algorithms over ranges of known length."""
        a, b = self.rv(args[0], s), self.rv(args[1], s)
        if a[0] != 'ptr' or b[0] != 'ptr' or a[1] != b[1]:
            return None
        n = const(sub(b[2], a[2]))
        if n is None or n < 0 or n > 4 * self.unroll:
            return None
        n = int(n)
        at = lambda p, i: self.read(self.deref(p, num(i)), s)
        if q == 'std::reverse' and len(args) == 2:
            vs = [at(a, i) for i in range(n)]
            for i, v in enumerate(vs):
                self.write(self.deref(a, num(n - 1 - i)), v, s)
            return ZERO
        if q == 'std::equal' and len(args) == 3:
            c = self.rv(args[2], s)
            return AND(*[cmp('==', at(a, i), at(c, i)) for i in range(n)]) if c[0] == 'ptr' else None
        if q == 'std::accumulate' and len(args) in (3, 4):
            op = '+'
            if len(args) == 4:
                m = re.match(r'std::(plus|multiplies)<', bare(args[3]['t']))
                if not m:
                    return None
                op = '+' if m.group(1) == 'plus' else '*'
            r = self.rv(args[2], s)
            for i in range(n):
                r = self.arith(op, r, at(a, i), args[2]['t'])
            return r
        if q in ('std::inner_product', 'std::transform_reduce') and len(args) == 4:
            c, r = self.rv(args[2], s), self.rv(args[3], s)
            if c[0] != 'ptr':
                return None
            for i in range(n):
                r = add(r, mul(at(a, i), at(c, i)))
            return r
        return None

    def add_map(self, s, base, bv, lo, hi, idx, v):
        for log in self.writes:
            log.append(('at', base, idx))
        for o in [o for o in s.st if o[0] == 'at' and o[1] == base]:
            del s.st[o]
        s.maps = s.maps + (('map', TRUE, base, ((bv, lo, hi),), idx, v),)

    def ctor(self, n, s):
        t = bare(n['t'])
        args = n['args']
        if iscomplex(t):
            vs = [self.rv(a, s) for a in args]
            if not vs:
                return ZERO
            if len(vs) == 1:
                return vs[0]
            return add(vs[0], mul(('I',), vs[1]))
        if (n.get('copy') or n.get('move')) and len(args) == 1:
            F = self.F.funcs.get(n.get('f')) if self.objects else None
            if F is not None and F.get('body') is not None and not F.get('defaulted') and self.can_inline(F, n):
                r = self.construct(F, args, s)
                if r is not None:
                    return r
            return self.rv(args[0], s)
        if self.objects and n.get('f') in self.F.funcs:
            F = self.F.funcs[n['f']]
            if F.get('body') is not None and self.can_inline(F, n):
                r = self.construct(F, args, s)
                if r is not None:
                    return r
        if t.startswith('std::pair<') or t.startswith('std::tuple<'):
            vs = [self.rv(a, s) for a in args]
            if len(vs) == 1 and vs[0][0] in ('tuple', 'list'):
                return ('tuple',) + vs[0][1:]
            return ('tuple',) + tuple(vs)
        if t.startswith('std::vector<') and not n.get('ilist'):
            vs = [self.rv(a, s) for a in args if not a.get('dflt')]
            if not vs and self.unroll:
                return ('list',)
            if len(vs) == 1 and self.unroll and isarith(bare(args[0]['t'])) and isarith(t[12:-1]):
                k = const(vs[0])
                if k is not None and 0 <= k <= 64 and k == int(k):
                    return ('list',) + (FALSE if t[12:-1] == 'bool' else ZERO,) * int(k)
            if len(vs) == 2 and vs[0][0] != 'ptr' and vs[0][0] != 'list':
                k = const(vs[0]) if isarith(bare(args[0]['t'])) else None
                if k is not None and 0 <= k <= 64 and k == int(k):
                    return ('list',) + (vs[1],) * int(k)
                return ('vec', vs[0], vs[1])
            return ('call', 'vector') + tuple(vs)
        vs = tuple(self.rv(a, s) for a in args if not a.get('dflt'))
        if self.objects and not vs:
            m = re.match(r'^std::array<.*, (\d+)(?:UL)?>$', t)
            if m and int(m.group(1)) <= 64:
                u = fresh()
                return ('list',) + tuple(('uninit', (u, i)) for i in range(int(m.group(1))))
        if t.startswith('std::function<') and len(vs) == 1 and vs[0][0] in ('lam', 'func'):
            return vs[0]
        if n.get('ilist') and len(vs) == 1 and vs[0][0] == 'list':
            return vs[0]
        return ('call', 'ctor:' + strip_t(t)) + vs


def newmaps_of(entry, end):
    if end is None:
        return ()
    p = 0
    while p < len(entry.maps) and p < len(end.maps) and entry.maps[p] == end.maps[p]:
        p += 1
    return end.maps[p:]
