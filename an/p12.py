"""P12: the crystallographic tables, judged entry by entry against the group each Hall symbol generates."""
from fractions import Fraction
from math import floor, gcd
import core
import hall
import summ
from core import loc

RULE = ('The rows of the space-group and point-group tables are read from their initialisers and judged against the group each Hall symbol generates under the published notation: '
        'closure, centring, point group, screw axes and glide planes of the full symbol, Schoenflies name, setting and origin. The functions that decode and look up entries are '
        'summarised as closed value graphs and those graphs are compared with the same reference for every entry of their finite domains.')
UNITS = ['src/spg_database.cpp', 'src/pointgroup.cpp', 'src/hall_symbol.cpp', 'src/bravais.cpp', 'src/pointsymmetry.cpp', 'd_lattice.cpp']


CODE = {}


class No(Exception):
    pass


class Thrown(Exception):
    pass


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction)):
        return v
    raise No('not a number: %r' % (v,))


class Fold:
    """constant folding of a closed value graph for one entry of its domain"""

    def __init__(self, par=None, selff=None, glob=None, enums=None, deflt=None):
        self.par = par or {}
        self.selff = selff or {}
        self.glob = glob or {}
        self.enums = enums or {}
        self.bv = {}
        self.deflt = deflt

    def __call__(self, t):
        k = t[0]
        m = getattr(self, 't_' + k, None)
        if not m:
            raise No('term ' + k)
        return m(t)

    def t_param(self, t):
        if t[1] not in self.par:
            raise No('parameter')
        return self.par[t[1]]

    def t_bool(self, t):
        return t[1]

    def t_str(self, t):
        return t[1]

    def t_enum(self, t):
        return t[1].split('::')[-1]

    def t_throw(self, t):
        raise Thrown()

    def t_bv(self, t):
        return self.bv[t]

    def t_glob(self, t):
        if t[1] not in self.glob:
            raise No('global ' + t[1])
        return self.glob[t[1]]

    def t_poly(self, t):
        r = Fraction(0)
        for m, c in t[1]:
            p = Fraction(c)
            for a, e in m:
                x = num(self(a))
                p = p * Fraction(x) ** e
            r += p
        return r

    def t_ite(self, t):
        return self(t[2]) if self(t[1]) else self(t[3])

    def t_not(self, t):
        return not self(t[1])

    def t_and(self, t):
        # order of evaluation is not kept in the graph: one false conjunct settles it
        err = None
        for x in t[1:]:
            try:
                if not self(x):
                    return False
            except (Thrown, No) as e:
                err = e
        if err:
            raise err
        return True

    def t_or(self, t):
        err = None
        for x in t[1:]:
            try:
                if self(x):
                    return True
            except (Thrown, No) as e:
                err = e
        if err:
            raise err
        return False

    def t_cmp(self, t):
        a, b = self(t[2]), self(t[3])
        if isinstance(a, str) and len(a) == 1 and not isinstance(b, str):
            a = ord(a)
        if isinstance(b, str) and len(b) == 1 and not isinstance(a, str):
            b = ord(b)
        if isinstance(a, str) != isinstance(b, str):
            if isinstance(a, str) and a in self.enums:
                a = self.enums[a]
            elif isinstance(b, str) and b in self.enums:
                b = self.enums[b]
            else:
                raise No('comparison')
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[t[1]]()

    def t_list(self, t):
        return [self(x) for x in t[1:]]

    def t_at(self, t):
        o = self(t[1])
        i = self(t[2])
        if not isinstance(o, (list, str)) or i != int(i) or not 0 <= i < len(o):
            raise No('index')
        return o[int(i)]

    def t_fld(self, t):
        if t[1] == ('var', 'self'):
            if t[2] not in self.selff:
                raise No('member ' + str(t[2]))
            return self.selff[t[2]]
        o = self(t[1])
        if isinstance(o, dict) and t[2] in o:
            return o[t[2]]
        raise No('field')

    def t_inv(self, t):
        x = num(self(t[1]))
        if not x:
            raise No('division by zero')
        return 1 / Fraction(x)

    def t_wrap(self, t):
        return self(t[2])

    def t_cast(self, t):
        return self(t[2])

    def rng(self, t):
        return range(int(self(t[2])), int(self(t[3])))

    def code(self, t):
        """the predicate as a Python expression over i, par, glob (None when a term is not covered)"""
        k = t[0]
        if k == 'poly':
            if not t[1]:
                return '0'
            if len(t[1]) == 1 and not t[1][0][0]:
                return repr(int(t[1][0][1])) if t[1][0][1].denominator == 1 else None
            return None
        if k == 'bv':
            return 'i' if t == self.cur else None
        if k == 'param':
            return 'par[%r]' % (t[1],)
        if k == 'glob':
            return 'glob[%r]' % (t[1],)
        if k == 'bool':
            return repr(t[1])
        if k == 'str':
            return repr(t[1])
        sub = None
        if k in ('and', 'or'):
            sub = [self.code(x) for x in t[1:]]
            return None if None in sub else '(' + (' %s ' % k).join(sub) + ')'
        if k == 'not':
            a = self.code(t[1])
            return a and '(not %s)' % a
        if k == 'cmp':
            a, b = self.code(t[2]), self.code(t[3])
            return a and b and '(%s %s %s)' % (a, {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>='}[t[1]], b)
        if k == 'at':
            a, b = self.code(t[1]), self.code(t[2])
            return a and b and '%s[%s]' % (a, b)
        if k == 'fld' and t[1] != ('var', 'self'):
            a = self.code(t[1])
            return a and '%s[%r]' % (a, t[2])
        if k == 'call' and t[1].split('::')[-1] in ('size', 'length'):
            a = self.code(t[2])
            return a and 'len(%s)' % a
        if k == 'call' and t[1].split('::')[-1] == 'compare':
            a, b = self.code(t[2]), self.code(t[3])
            return a and b and '((%s > %s) - (%s < %s))' % (a, b, a, b)
        return None

    def hits(self, bv, pred, rng):
        self.cur = bv
        key = (bv, pred)
        if key not in CODE:
            c = self.code(pred)
            CODE[key] = c and eval('lambda i, par, glob: ' + c)
        f = CODE[key]
        if f:
            for i in rng:
                if f(i, self.par, self.glob):
                    return i
            return None
        for i in rng:
            self.bv[bv] = i
            if self(pred):
                return i
        return None

    def t_exists(self, t):
        return self.hits(t[1], t[4], self.rng(t)) is not None

    def t_firstof(self, t):
        if t[1] not in self.scope:
            raise No('range of a search')
        i = self.hits(t[1], t[2], self.scope[t[1]])
        if i is None:
            raise No('search without a hit')
        self.bv[t[1]] = i
        return self(t[3])

    scope = {}

    def t_sum(self, t):
        r = 0
        for i in self.rng(t):
            self.bv[t[1]] = i
            r += num(self(t[4]))
        return r

    def t_call(self, t):
        q = t[1].split('::')[-1]
        a = [self(x) for x in t[2:]]
        if q == 'abs':
            return abs(num(a[0]))
        if q == 'floor':
            return floor(num(a[0]))
        if q in ('size', 'length'):
            return len(a[0])
        if q == 'empty':
            return not a[0]
        if q == 'compare':
            return (a[0] > a[1]) - (a[0] < a[1])
        if q == 'strchr':
            c = a[1] if isinstance(a[1], str) else chr(int(a[1]))
            return 1 if c in a[0] else 0
        if q == 'find' and len(a) == 2 and isinstance(a[0], str):
            return a[0].find(a[1])
        raise No('call ' + t[1])


def scopes(t, out):
    """ranges of the bound variables whose first hit is asked for"""
    if isinstance(t, tuple):
        if t and t[0] == 'exists' and t[2][0] == 'poly' and t[3][0] == 'poly':
            out[t[1]] = t
        for x in t:
            if isinstance(x, tuple):
                scopes(x, out)


def const(e):
    """value of a constant initialiser expression"""
    k = e['k']
    if k == 'int':
        return int(e['v'])
    if k == 'char':
        return int(e['v']) if str(e['v']).lstrip('-').isdigit() else ord(e['v'])
    if k == 'str':
        return e['s']
    if k == 'un' and e['op'] == '-':
        return -const(e['e'])
    if k == 'un' and e['op'] == '+':
        return const(e['e'])
    if k == 'cast':
        return const(e['e'])
    if k == 'float':
        return Fraction(str(e['v']))
    if k == 'bin' and e['op'] in '+-*/':
        a, b = const(e['a']), const(e['b'])
        return {'+': a + b, '-': a - b, '*': a * b, '/': a // b if isinstance(a, int) and isinstance(b, int) else a / b}[e['op']]
    if k == 'ref' and e.get('dk') == 'enum':
        return (e.get('q') or e['n']).split('::')[-1]
    if k == 'ctor':
        args = [a for a in e['args'] if not a.get('dflt')]
        if len(args) == 1 or e.get('copy') or e.get('move'):
            return const(args[0])
        if not args and 'basic_string' in e['cls']:
            return ''
    if k == 'init':
        return [const(x) for x in e['c']]
    raise No('initialiser ' + k)


def run(tier):
    C = core.Check('P12', tier, RULE)
    F = C.facts([u for u in UNITS])
    D = Data(C, F)
    D.tables()
    D.rows()
    D.pointgroups()
    D.functions()
    C.floor('row', 500)
    C.floor('point group', 30)
    C.floor('Seitz matrix', 20)
    C.floor('centring', 7)
    C.floor('lookup', 5)
    return C.finish()


class Data:
    def __init__(self, C, F):
        self.C, self.F = C, F
        self.enums = {}
        self.sp = []
        self.pg = []

    def gvar(self, name):
        v = [x for (q, f), x in self.F.gvars.items() if q.split('::')[-1] == name]
        return v[0] if v else None

    def fns(self, q, npar=None):
        r = [f for f in self.F.funcs.values() if f['q'].endswith(q) and f.get('body') and not f.get('dep') and (npar is None or len(f['params']) == npar)]
        return r

    def fn(self, q, npar=None):
        r = self.fns(q, npar)
        if len(r) != 1:
            self.C.undecided('anchor', '%s: %d definitions found' % (q, len(r)))
            return None
        return r[0]

    def summary(self, fn, state=None):
        E = summ.Eval(self.F, unroll=16, inline_depth=9)
        return E.function(fn, None, this=('var', 'self'), state=state)

    # -- tables -----------------------------------------------------------------------------
    def record(self, e, gv):
        """one aggregate or constructor row -> {field: value}"""
        if e['k'] == 'ctor' and (e.get('copy') or e.get('move')):
            return self.record(e['args'][0], gv)
        if e['k'] == 'cast':
            return self.record(e['e'], gv)
        if e['k'] == 'init':
            if len(e['c']) == 1 and e['c'][0]['k'] in ('ctor', 'init', 'cast') and 'Type' not in e.get('t', ''):
                return self.record(e['c'][0], gv)
            rec = next((r for (q, d), r in self.F.records.items() if q.split('::')[-1] == e['t'].split('::')[-1].replace('const ', '')), None)
            if not rec:
                raise No('record type ' + e['t'])
            return {f['n']: const(x) for f, x in zip(rec['fields'], e['c'])}
        if e['k'] == 'ctor':
            f = self.F.funcs.get(e['f'])
            if not f:
                raise No('constructor of the row')
            par = {p['d']: i for i, p in enumerate(f['params'])}
            vals = [const(a) for a in e['args']]
            r = {}
            for i in f.get('inits') or []:
                x = i['e']
                while x['k'] in ('cast', 'ctor') and x['k'] == 'cast' or x['k'] == 'ctor' and len([a for a in x['args'] if not a.get('dflt')]) == 1:
                    x = x['e'] if x['k'] == 'cast' else x['args'][0]
                if x['k'] == 'call' and x['fn'] in ('move', 'forward') and x['args']:
                    x = x['args'][0]
                if 'field' in i and x['k'] == 'ref' and x.get('d') in par:
                    r[i['field']] = vals[par[x['d']]]
                elif 'field' in i:
                    r[i['field']] = const(x)
            return r
        raise No('row ' + e['k'])

    def tables(self):
        C = self.C
        for name, dest in (('ALL_SPACEGROUPS', 'sp'), ('pointgroup_data', 'pg')):
            gv = self.gvar(name)
            if not gv or 'init' not in gv:
                C.undecided('table', name + ' not found')
                continue
            try:
                setattr(self, dest, [self.record(r, gv) for r in gv['init']['c']])
            except No as e:
                C.undecided('table', '%s: %s' % (name, e))
            self.__dict__[dest + '_at'] = [rowline(gv, i) for i in range(len(gv['init']['c']))]

    # -- the rows ---------------------------------------------------------------------------
    def rows(self):
        C = self.C
        sp = self.sp
        need = ('number', 'schoenflies', 'hall_symbol', 'international', 'international_full', 'international_short', 'choice', 'bravais', 'pointgroup_number', 'hall_number')
        if not sp:
            return
        if any(n not in sp[1] for n in need):
            C.undecided('row', 'a field is not set by the row constructor: %s' % [n for n in need if n not in sp[1]])
            return
        if len(sp) != 531:
            C.bad('row', 'count', self.sp_at[0], 'the table has %d entries for the 530 settings and the empty one' % len(sp))
        e = sp[0]
        if e['number'] or e['hall_number'] or e['pointgroup_number'] or e['bravais'] != '_' or e['hall_symbol']:
            C.bad('row', '0', self.sp_at[0], 'entry 0 stands for "no space group" but is not empty')
        prev = 0
        inv, seen, full = {}, {}, {}
        for i, r in enumerate(sp[1:], 1):
            C.instance('row', '%d %s' % (i, r['hall_symbol']))
            b = lambda m: C.bad('row', '%d|%s' % (i, r['hall_symbol']), self.sp_at[i], 'entry %d (%s, Hall "%s"): %s' % (i, r['international_full'], r['hall_symbol'], m))
            n = r['number']
            if r['hall_number'] != i:
                b('its Hall number is %s' % r['hall_number'])
            if n not in (prev, prev + 1) or not 1 <= n <= 230:
                b('number %d follows %d' % (n, prev))
                if not 1 <= n <= 230:
                    continue
            prev = n
            try:
                L, G = hall.group(r['hall_symbol'])
            except (hall.Bad, ValueError, KeyError) as x:
                b('the Hall symbol does not generate a space group (%s)' % x)
                continue
            if r['bravais'] != L:
                b('centring %s, but the Hall symbol is %s' % (r['bravais'], L))
            pg = hall.pg_of_number(n)
            if r['pointgroup_number'] != pg:
                b('point group %s, but space group %d belongs to %d (%s)' % (r['pointgroup_number'], n, pg, hall.REF[pg - 1][0]))
            if hall.classes(G) != hall.classes_of(pg):
                b('the rotations its Hall symbol generates are not those of point group %s' % hall.REF[pg - 1][0])
                continue
            sf = '%s^%d' % (hall.REF[pg - 1][1], n - hall.FIRST[pg - 1] + 1)
            if r['schoenflies'] != sf:
                b('Schoenflies symbol %s, not %s' % (r['schoenflies'], sf))
            for p in hall.hm_problems(r['international_full'], n, r['hall_symbol'], r['choice']):
                b('the full symbol and the Hall symbol disagree: ' + p)
            parts = r['international'].split(' = ')
            if parts[0].replace(' ', '') != r['international_short']:
                b('short symbol %s, not %s' % (r['international_short'], parts[0]))
            if len(parts) > 1:
                if r['international_full'] not in parts:
                    b('the full symbol is not among "%s"' % r['international'])
            else:
                x, y = parts[0].split(), r['international_full'].split()
                if n > 2 and n < 16:
                    pass
                if len(x) != len(y) or any(p != q and p != q.split('/')[-1] for p, q in zip(x, y)):
                    b('"%s" is not an abbreviation of "%s"' % (parts[0], r['international_full']))
            sym = hall.symmorphic(r['hall_symbol'])
            if sym != hall.is_glideless(r['international_short']):
                b('the short symbol %s and the Hall symbol disagree on whether all elements meet in a point' % r['international_short'])
            ch = r['choice']
            if 3 <= n < 16:
                ax = {'a': (1, 0, 0), 'b': (0, 1, 0), 'c': (0, 0, 1)}.get(ch.lstrip('-')[:1])
                if ax not in [hall.axis(W) for W in G if abs(hall.kind(W)) == 2]:
                    b('the unique axis is not the one of its choice "%s"' % ch)
            elif ch[:1] in ('1', '2'):
                centre = G.get(hall.neg(hall.I3)) == (0, 0, 0)
                if centre != (ch[0] == '2'):
                    b('the origin is %sat a centre of inversion, which is not origin choice %s' % ('' if centre else 'not ', ch[0]))
            elif ch in ('H', 'R') and (ch == 'H') != (L == 'R'):
                b('choice %s with lattice %s' % (ch, L))
            for key, what in (((n, ch), 'number and choice'), (('full', r['international_full'], ch), 'full symbol and choice')):
                if key in seen:
                    b('the same %s as entry %d' % (what, seen[key]))
                seen.setdefault(key, i)
            v = hall.invariant(r['hall_symbol'])
            w = inv.setdefault(n, (v, i))
            if w[0] != v:
                b('its group is not a setting of the group of entry %d, which has the same number' % w[1])
        by = {(r['number'], r['choice']): r for r in sp[1:]}
        fam = {}
        for i, r in enumerate(sp[1:], 1):
            fam.setdefault(r['number'], []).append(r['choice'])
            C.instance('setting', '%d %s' % (r['number'], r['choice']))
            b = lambda m: C.bad('setting', '%d|%s' % (i, r['hall_symbol']), self.sp_at[i], 'entry %d (%s, choice "%s", Hall "%s"): %s' % (i, r['international_full'], r['choice'], r['hall_symbol'], m))
            ref = hall.reference_setting(r['number'], r['choice'])
            s = ref and by.get((r['number'], ref[0]))
            if not s:
                b('not a known choice of axes and origin')
                continue
            try:
                if not hall.is_setting_of(r['hall_symbol'], s['hall_symbol'], ref[1]):
                    b('its group is not the one of choice "%s" (Hall "%s") with the axes %s' % (s['choice'], s['hall_symbol'], ref[1]))
            except (hall.Bad, ValueError, KeyError):
                pass
        first = {}
        for i, r in enumerate(sp[1:], 1):
            first.setdefault(r['number'], i)
        for n, ch in fam.items():
            if not hall.complete(n, ch):
                C.bad('setting', 'family %s' % n, self.sp_at[first[n]], 'space group %s: the choices %s are not a whole family of settings' % (n, ch))
        if prev != 230:
            C.bad('row', 'last', self.sp_at[-1], 'the table ends with space group %d' % prev)

    # -- point groups -----------------------------------------------------------------------
    def pointgroups(self):
        C = self.C
        pg = self.pg
        if not pg:
            return
        if len(pg) != 33:
            C.bad('point group', 'count', self.pg_at[0], '%d entries for the 32 point groups and the empty one' % len(pg))
        for i, r in enumerate(pg[1:33], 1):
            C.instance('point group', '%d %s' % (i, r.get('symbol')))
            ref = hall.REF[i - 1]
            b = lambda m: C.bad('point group', str(i), self.pg_at[i], 'point group %d (%s): %s' % (i, r.get('symbol'), m))
            for f, want in (('symbol', ref[0]), ('schoenflies', ref[1]), ('holohedry', ref[2]), ('laue', '_' + ref[3])):
                if r.get(f) != want:
                    b('%s is "%s", not "%s"' % (f, r.get(f), want))
            t = r.get('table')
            if t != hall.classes_of(i):
                b('numbers of rotations %s, but the group has %s (for %s)' % (t, hall.classes_of(i), hall.KINDS))

    # -- functions --------------------------------------------------------------------------
    def graph(self, q, npar=None, rule='anchor'):
        fn = self.fn(q, npar)
        if not fn:
            return None, None
        try:
            r = self.summary(fn)
        except (summ.Undecided, RecursionError) as e:
            self.C.undecided(rule, '%s: %s' % (q, e))
            return fn, None
        return fn, r

    def fold(self, rule, fn, term, what, **k):
        f = Fold(glob={'ALL_SPACEGROUPS': self.sp, 'pointgroup_data': self.pg}, **k)
        sc = {}
        scopes(term, sc)
        f.scope = {b: f.rng(t) for b, t in sc.items()}
        try:
            return f(term)
        except Thrown:
            return 'throw'
        except No as e:
            self.C.undecided(rule, '%s %s: %s' % (fn['q'], what, e))
            return None

    def functions(self):
        C = self.C
        self.seitz()
        self.primitive()
        self.isometry()
        self.lookups()
        self.members()
        self.letters()
        self.axes()
        self.generators()

    def seitz(self):
        C = self.C
        fn, r = self.graph('SeitzSymbol::inner_getr', 2)
        if r:
            for n in (1, 2, 3, 4, 6):
                cases = [('z', '!')] if n == 1 else [(a, '!') for a in 'xyz']
                if n == 2:
                    cases += [('?', p) for p in 'xyz*'] + [(a, p) for a in '\'"' for p in 'xyz']
                if n == 3:
                    cases.append(('*', 'x'))
                for ax, pax in cases:
                    for s in (1, -1):
                        what = '%d%s after %s' % (s * n, ax, pax)
                        C.instance('Seitz matrix', what)
                        got = self.fold('Seitz matrix', fn, r.value, what, par={0: ax, 1: pax}, selff={'N': s * n})
                        if got is None:
                            continue
                        want = hall.seitz(n, "'" if ax == '?' else ax, 'z' if ax == '?' else pax)
                        want = [s * x for x in want]
                        if got == 'throw' or [int(x) for x in got] != want:
                            C.bad('Seitz matrix', what, loc(fn), 'the matrix of %s is %s, which is not %s' % (what, got if got == 'throw' else [int(x) for x in got], want))
        fn, r = self.graph('SeitzSymbol::inner_gett', 3)
        if r:
            F1 = Fraction(1)
            base = {c: [Fraction(x, hall.U) for x in v] for c, v in hall.TR.items()}
            for n in (1, 2, 3, 4, 6):
                for ax in ('x', 'y', 'z') + (('*',) if n == 3 else ()):
                    for T in ['', 'a', 'b', 'c', 'n', 'u', 'v', 'w', 'd', 'ab', 'bc', 'ac', 'nw', 'bd', 'uv', 'cvw', '1', '2', '3', '4', '5', '1a']:
                        if any(c.isdigit() and int(c) >= n for c in T):
                            continue
                        what = 'translation %r of %d%s' % (T, n, ax)
                        C.instance('Seitz translation', what)
                        got = self.fold('Seitz translation', fn, r.value, what, par={0: n, 1: ax, 2: 'z'}, selff={'T': T, 'N': n})
                        if got is None:
                            continue
                        v = [Fraction(0)] * 3
                        d = hall.AX.get(ax, (1, 1, 1))
                        for c in T:
                            add = base[c] if c in base else [Fraction(int(c) * x, n) for x in d]
                            v = [p + q for p, q in zip(v, add)]
                        v = [x - floor(x) for x in v]
                        if got == 'throw' or list(got) != v:
                            C.bad('Seitz translation', what, loc(fn), 'the %s is %s, not %s' % (what, got if got == 'throw' else [str(x) for x in got], [str(x) for x in v]))
        # implicit axes
        fn, r = self.graph('SeitzSymbol::implicit_axis', 0)
        if r:
            for A in ('', 'x', 'y', '*'):
                C.instance('implicit axis', 'first ' + A)
                got = self.fold('implicit axis', fn, r.value, A, selff={'A': A, 'N': 2})
                if got is not None and chrof(got) != (A or 'z'):
                    C.bad('implicit axis', 'first', loc(fn), 'the axis of the first symbol is %r where it should be %r' % (chrof(got), A or 'z'))
        fn, r = self.graph('SeitzSymbol::implicit_axis', 1)
        if r:
            for n in (2, 3):
                for p in (1, 2, 3, 4, 6):
                    for s in (1, -1):
                        for A in ('', 'y', "'"):
                            if n == 2 and p == 1 and not A:
                                continue
                            what = '%d%s after %d' % (n, A, s * p)
                            C.instance('implicit axis', what)
                            got = self.fold('implicit axis', fn, r.value, what, par={0: {'N': s * p, 'A': 'z', 'T': ''}}, selff={'A': A, 'N': s * n})
                            if got is None:
                                continue
                            want = A or ('*' if n == 3 else 'x' if p in (2, 4) else '?')
                            if chrof(got) != want:
                                C.bad('implicit axis', what, loc(fn), 'the axis of %s is %r, not %r' % (what, chrof(got), want))

    def primitive(self):
        C = self.C
        fp, rp = self.graph('PrimitiveTransform::get_6P', 0)
        fi, ri = self.graph('PrimitiveTransform::get_invP', 0)
        ft, rt = self.graph('PrimitiveTransform::get_6Pt', 0)
        fj, rj = self.graph('PrimitiveTransform::get_invPt', 0)
        fd, rd = self.graph('PrimitiveTransform::does_anything', 0)
        fe, re_ = self.graph('PrimitiveTransform::does_nothing', 0)
        for L in hall.CENT:
            C.instance('centring', L)
            s = {'bravais': L}
            g = {}
            for k, fn, r in (('P', fp, rp), ('i', fi, ri), ('Pt', ft, rt), ('it', fj, rj)):
                if r:
                    v = self.fold('centring', fn, r.value, L, selff=s)
                    if v is not None:
                        if v == 'throw':
                            C.bad('centring', L, loc(fn), '%s refuses the centring %s' % (fn['q'], L))
                        else:
                            g[k] = tuple(int(x) for x in v)
            for k, kt, fn in (('P', 'Pt', ft), ('i', 'it', fj)):
                if k in g and kt in g and g[kt] != tuple(g[k][3 * j + i] for i in range(3) for j in range(3)):
                    C.bad('centring', L, loc(fn), 'centring %s: %s is not the transpose' % (L, fn['q']))
            if 'P' in g and 'i' in g:
                P, Q = g['P'], g['i']
                if hall.mm(P, Q) != tuple(6 * x for x in hall.I3):
                    C.bad('centring', L, loc(fi), 'centring %s: the two transforms are not inverse to each other' % L)
                pts = len(hall.CENT[L])
                if hall.det(P) * pts != 216:
                    C.bad('centring', L, loc(fp), 'centring %s: the primitive cell has volume %s of the conventional one, which holds %d lattice points' % (L, Fraction(hall.det(P), 216), pts))
                for c in range(3):
                    v = tuple(P[3 * i + c] * hall.U // 6 for i in range(3))
                    if hall.reduce_t(v, hall.CENT[L]) != (0, 0, 0) or any(P[3 * i + c] * hall.U % 6 for i in range(3)):
                        C.bad('centring', L, loc(fp), 'centring %s: column %d of the transform is not a lattice vector' % (L, c))
            for fn, r, want in ((fd, rd, L != 'P'), (fe, re_, L == 'P')):
                if r:
                    v = self.fold('centring', fn, r.value, L, selff=s)
                    if v is not None and bool(v) != want:
                        C.bad('centring', L, loc(fn), '%s answers %s for centring %s' % (fn['q'], bool(v), L))

    def isometry(self):
        C = self.C
        ops = set()
        for r in self.sp[1:]:
            try:
                ops |= set(hall.group(r['hall_symbol'])[1])
            except (hall.Bad, ValueError, KeyError):
                pass
        for q, want in (('isometry_type', lambda k: hall.KINDS.index(k)), ('::isometry_value', lambda k: k), ('::rotation_order', abs)):
            fs = [f for f in self.F.funcs.values() if (f['q'] == q.lstrip(':') or f['q'].endswith('::' + q.lstrip(':'))) and len(f['params']) == 1 and f.get('body') and 'int *' in f['params'][0]['t'] and not f.get('cls')]
            if len(fs) != 1:
                C.undecided('isometry', '%s: %d definitions' % (q, len(fs)))
                continue
            try:
                r = self.summary(fs[0])
            except (summ.Undecided, RecursionError) as e:
                C.undecided('isometry', '%s: %s' % (q, e))
                continue
            for W in sorted(ops):
                k = hall.kind(W)
                C.instance('isometry', '%s %s' % (q, k))
                v = self.fold('isometry', fs[0], r.value, str(W), par={0: list(W)})
                if v is not None and v != want(k):
                    C.bad('isometry', '%s %s' % (q, k), loc(fs[0]), '%s gives %s for the %d-fold operation %s' % (q, v, k, W))
                    break
        self.ops = ops

    def axes(self):
        C = self.C
        gv = self.gvar('rot_axes')
        if not gv:
            C.undecided('axis', 'rot_axes not found')
            return
        try:
            ax = [tuple(r) for r in const(gv['init'])]
        except No as e:
            C.undecided('axis', str(e))
            return
        for i, a in enumerate(ax):
            C.instance('axis', str(a))
            w = '%s:%s' % (core.rel(gv['file']), gv['init']['c'][i]['l'])
            if len(a) != 3 or gcd(*a) != 1:
                C.bad('axis', str(i), w, 'axis %d %s is not a primitive direction' % (i, a))
            if a in ax[:i] or tuple(-x for x in a) in ax[:i]:
                C.bad('axis', str(i), w, 'axis %d %s is listed twice' % (i, a))
        for W in self.ops:
            if W not in (hall.I3, hall.neg(hall.I3)):
                u = hall.axis(W)
                if u not in ax and hall.neg(u) not in ax:
                    C.bad('axis', str(u), '%s:%s' % (core.rel(gv['file']), gv['l']), 'the axis %s of %s is not in the list' % (u, W))

    def letters(self):
        C = self.C
        words = {'P': 'primitive', 'A': 'A-face', 'B': 'B-face', 'C': 'C-face', 'I': 'body', 'F': 'face', 'R': 'rhombohedral'}
        fl, rl = self.graph('brille::bravais_letter', 1)
        fk, rk = self.graph('brille::bravais_is_known', 1)
        fs, rs = self.graph('brille::bravais_string', 1)
        fc, rc = self.graph('HallSymbol::setl', 2)
        seen = {}
        for L in list(hall.CENT) + ['_']:
            C.instance('letter', L)
            if rl:
                v = self.fold('letter', fl, rl.value, L, par={0: L})
                if v is not None and L != '_' and chrof(v) != L:
                    C.bad('letter', L, loc(fl), 'the letter of centring %s is %r' % (L, chrof(v)))
                if v is not None and L == '_' and chrof(v) in hall.CENT:
                    C.bad('letter', L, loc(fl), 'an unknown centring is given the letter %r' % chrof(v))
            if rk:
                v = self.fold('letter', fk, rk.value, L, par={0: L})
                if v is not None and bool(v) != (L != '_'):
                    C.bad('letter', L, loc(fk), 'centring %s is %sknown' % (L, '' if v else 'not '))
            if rs:
                v = self.fold('letter', fs, rs.value, L, par={0: L})
                if v is not None and L != '_' and (not isinstance(v, str) or not v.lower().startswith(words[L].lower())):
                    C.bad('letter', L, loc(fs), 'centring %s is described as %r' % (L, v))
            if rc and L != '_':
                v = self.fold('letter', fc, rc.value, L, par={0: L, 1: False})
                if v is not None and v != L:
                    C.bad('letter', L, loc(fc), 'the lattice letter %s is read as centring %s' % (L, v))
                for cs in (False, True):
                    t = rc.final.st.get(('fld', ('var', 'self'), 'centrosymmetric')) if rc.final else None
                    m = rc.final.st.get(('fld', ('var', 'self'), 'L')) if rc.final else None
                    for x, want, n in ((t, cs, 'centrosymmetric'), (m, L, 'L')):
                        if x is not None:
                            v = self.fold('letter', fc, x, n, par={0: L, 1: cs})
                            if v is not None and v != want:
                                C.bad('letter', L + n, loc(fc), 'reading the lattice letter %s sets %s to %s' % (L, n, v))

    def lookups(self):
        C = self.C
        sp = self.sp
        if len(sp) < 2:
            return
        C.instance('lookup', 'hall_number_ok')
        fn, r = self.graph('brille::hall_number_ok', 1)
        if r:
            for h in list(range(-3, len(sp) + 4)):
                v = self.fold('lookup', fn, r.value, h, par={0: h})
                if v is not None and bool(v) != (0 < h < len(sp)):
                    C.bad('lookup', 'hall_number_ok', loc(fn), 'Hall number %d is %s; the table has %d entries' % (h, 'accepted' if v else 'refused', len(sp) - 1))
                    break
        C.instance('lookup', 'number')
        fn, r = self.graph('brille::international_number_to_hall_number', 2)
        if r:
            todo = [(n, '') for n in range(-2, 234)] + [(x['number'], x['choice']) for x in sp[1:]]
            for n, c in todo:
                v = self.fold('lookup', fn, r.value, (n, c), par={0: n, 1: c})
                if v is None:
                    break
                ok = isinstance(v, (int, Fraction)) and 0 < v < len(sp) and sp[int(v)]['number'] == n and (not c or sp[int(v)]['choice'] == c)
                if not 1 <= n <= 230:
                    ok = v != 'throw' and not 0 < v < len(sp)
                if not ok:
                    C.bad('lookup', 'number', loc(fn), 'space group number %d with choice %r is looked up as entry %s' % (n, c, v))
                    break
        for q, keys in (('hall_symbol_to_hall_number', ('hall_symbol',)), ('international_string_to_hall_number', ('international', 'international_full', 'international_short')),
                        ('string_to_hall_number', ('hall_symbol', 'international', 'international_full', 'international_short'))):
            C.instance('lookup', q)
            fn, r = self.graph('brille::' + q, 1 if q.startswith('hall') else 2)
            if not r:
                continue
            done = set()
            bad = False
            for i, x in enumerate(sp[1:], 1):
                for k in keys:
                    for c in ((), ('',), (x['choice'],))[0 if q.startswith('hall') else 1:][:2] if not q.startswith('hall') else ((),):
                        if (x[k],) + c in done and k != 'international_full':
                            continue
                        done.add((x[k],) + c)
                        v = self.fold('lookup', fn, r.value, x[k], par=dict(enumerate((x[k],) + c)))
                        if v is None:
                            bad = True
                            break
                        y = sp[int(v)] if v != 'throw' and 0 < v < len(sp) else None
                        m = None
                        if not y:
                            m = 'is not found'
                        elif y['number'] != x['number']:
                            m = 'gives entry %d of space group %d' % (v, y['number'])
                        elif k == 'hall_symbol' and y['hall_symbol'] != x[k]:
                            m = 'gives entry %d, whose Hall symbol is %s' % (v, y['hall_symbol'])
                        elif k == 'international_full' and c == (x['choice'],) and c[0] and v != i and y['hall_symbol'] != x[k]:
                            m = 'with its choice %s gives entry %d' % (c[0], v)
                        if m:
                            C.bad('lookup', q + '|%d|%s' % (i, k), loc(fn), '%s: the %s "%s" of entry %d (space group %d) %s' % (q, k, x[k], i, x['number'], m))
                            bad = True
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad:
                continue
            for s in ('', 'Q 2', 'P 9', 'C 2 2 -1bcd', 'nonsense'):
                v = self.fold('lookup', fn, r.value, s, par={0: s, 1: ''})
                if v is not None and (v == 'throw' or 0 < v < len(sp)):
                    C.bad('lookup', q, loc(fn), '%s: the unknown symbol "%s" is looked up as entry %s' % (q, s, v))

    def members(self):
        """the object built from an entry holds that entry, field by field"""
        C = self.C
        sp = self.sp
        for q, key, table in (('Spacegroup::set_from_hall_number', None, sp), ('Pointgroup::setup', 'number', self.pg)):
            fs = self.fns(q)
            if len(fs) != 1 or not table:
                C.undecided('entry', q)
                continue
            fn = fs[0]
            C.instance('entry', q)
            try:
                r = self.summary(fn)
            except (summ.Undecided, RecursionError) as e:
                C.undecided('entry', '%s: %s' % (q, e))
                continue
            st = r.final.st if r.final else (r.exits[-1][-1].st if r.exits else {})
            fields = [f for f in table[1] if f != 'table']
            if key:
                fields = [f for f in fields if f != key]
            for f in fields:
                t = st.get(('fld', ('var', 'self'), f))
                if t is None:
                    C.bad('entry', q + f, loc(fn), '%s does not set %s from the table' % (q, f))
                    continue
                for h in range(0, len(table)):
                    k = {'par': {0: h}} if not key else {'selff': {key: h}}
                    v = self.fold('entry', fn, t, h, **k)
                    if v is None:
                        break
                    if v != table[h].get(f):
                        C.bad('entry', q + f, loc(fn), '%s: entry %d gives %s = %r where the table has %r' % (q, h, f, v, table[h].get(f)))
                        break
        # accessors of the entry
        want = {'get_hall_number': 'hall_number', 'get_international_table_number': 'number', 'get_pointgroup_number': 'pointgroup_number', 'get_schoenflies_symbol': 'schoenflies',
                'get_hall_symbol': 'hall_symbol', 'get_international_table_symbol': 'international', 'get_international_table_full': 'international_full',
                'get_international_table_short': 'international_short', 'get_choice': 'choice', 'get_bravais_type': 'bravais'}
        for m, f in want.items():
            fs = self.fns('Spacegroup::' + m, 0)
            if len(fs) != 1:
                continue
            C.instance('entry', m)
            try:
                r = self.summary(fs[0])
            except summ.Undecided as e:
                C.undecided('entry', '%s: %s' % (m, e))
                continue
            if r.value != ('fld', ('var', 'self'), f):
                C.bad('entry', m, loc(fs[0]), '%s does not return %s' % (m, f))
        for q, hollow in (('Holohedry', ''), ('Laue', '_')):
            fs = [f for f in self.F.funcs.values() if f['q'] == 'brille::my_to_string' and f.get('body') and q in f['params'][0]['t']]
            if len(fs) != 1:
                continue
            names = sorted({(r[2] if q == 'Holohedry' else '_' + r[3]) for r in hall.REF})
            r = self.summary(fs[0])
            for n in names:
                C.instance('entry', q + ' ' + n)
                v = self.fold('entry', fs[0], r.value, n, par={0: n})
                if v is not None and v != n.lstrip('_'):
                    C.bad('entry', q + n, loc(fs[0]), 'the name of %s::%s is "%s"' % (q, n, v))

    def generators(self):
        """HallSymbol::get_generators: the centring translations it adds"""
        C = self.C
        fn = self.fn('HallSymbol::get_generators', 0)
        if not fn:
            return
        body = fn['body']['c']
        n = 0
        for j, s in enumerate(body):
            loops = [(x, []) for x in core.walk(s) if x['k'] == 'forrange' and x['range'] and any(y['k'] == 'call' and y['fn'] == 'add' and len(y['args']) == 2 for y in core.walk(x['body']))]
            for lp, _ in loops:
                rg = lp['range']
                while rg['k'] in ('cast',):
                    rg = rg['e']
                if rg['k'] != 'ref' or 'array' not in rg['t'] or 'double' not in rg['t']:
                    continue
                call = next(y for y in core.walk(lp['body']) if y['k'] == 'call' and y['fn'] == 'add')
                pre = body[:j]
                cs = None
                if s['k'] == 'if':
                    cs = s['cond']
                    inner = s['then']
                    for st in (inner['c'] if inner['k'] == 'block' else [inner]):
                        if any(y is lp for y in core.walk(st)):
                            break
                        pre = pre + [st]
                elif s is not lp:
                    C.undecided('generators', 'the centring translations are added inside %s' % s['k'])
                    continue
                n += 1
                sign = -1 if cs is not None else 1
                vals = {}
                for nm, e in (('ts', rg), ('r', call['args'][0])):
                    f2 = dict(fn, body={'k': 'block', 'l': fn['l'], 'c': pre + [{'k': 'return', 'l': fn['l'], 'e': e}]}, rt=e.get('t', fn['rt']).replace('&', ''))
                    try:
                        vals[nm] = self.summary(f2).value
                    except (summ.Undecided, RecursionError) as x:
                        C.undecided('generators', '%s: %s' % (nm, x))
                for L in hall.CENT:
                    C.instance('generators', '%s %d' % (L, sign))
                    if 'ts' in vals:
                        v = self.fold('generators', fn, vals['ts'], L, selff={'L': L, 'centrosymmetric': True})
                        if v is not None:
                            if v != 'throw' and len(v) == 3 and not any(isinstance(x, list) for x in v):
                                v = [v]        # a single vector, its braces elided
                            want = sorted(hall.CENT[L])
                            got = sorted(tuple(int(round(float(x) * hall.U)) for x in t) for t in v) if v != 'throw' and all(isinstance(t, list) for t in v) else v
                            if got != want or any(abs(float(x) * hall.U - round(float(x) * hall.U)) > 1e-9 for t in v for x in t):
                                C.bad('generators', L, loc(fn, lp), 'centring %s adds the translations %s' % (L, show(v)))
                    if 'r' in vals and L == 'P':
                        v = self.fold('generators', fn, vals['r'], L, selff={'L': L, 'centrosymmetric': True})
                        if v is not None and [int(x) for x in v] != [sign * x for x in hall.I3]:
                            C.bad('generators', 'r%d' % sign, loc(fn, lp), 'the centring translations are added with the rotation %s' % [int(x) for x in v])
                if cs is not None:
                    f2 = dict(fn, body={'k': 'block', 'l': fn['l'], 'c': body[:j] + [{'k': 'return', 'l': fn['l'], 'e': cs}]}, rt='bool')
                    v = self.summary(f2).value
                    for c in (True, False):
                        x = self.fold('generators', fn, v, 'condition', selff={'L': 'P', 'centrosymmetric': c})
                        if x is not None and bool(x) != c:
                            C.bad('generators', 'inversion', loc(fn, s), 'the inversion is %s for a %scentrosymmetric symbol' % ('added' if x else 'not added', '' if c else 'non-'))
        if n < 2:
            C.undecided('generators', '%d loops over the centring translations recognised' % n)


def chrof(v):
    return v if isinstance(v, str) else chr(int(v)) if v == int(v) and 0 <= v < 256 else None


def rowline(gv, i):
    def line(e):
        if isinstance(e, dict):
            if e.get('k') in ('int', 'str') and e.get('l'):
                return e['l']
            for k in ('args', 'c'):
                for x in e.get(k) or []:
                    r = line(x)
                    if r:
                        return r
            return line(e.get('e')) if 'e' in e else None
    return '%s:%s' % (core.rel(gv['file']), line(gv['init']['c'][i]) or gv['l'])


def show(v):
    return [show(x) for x in v] if isinstance(v, list) else str(v)
