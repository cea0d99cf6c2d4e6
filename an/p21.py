"""P21: equality considers every part that distinguishes two objects (truth evaluation of the operators' summaries)."""
import re
import core
import summ
import terms as T
import tval
from core import loc, bare

RULE = ('Every equality and inequality operator of a class is summarised as a formula over comparisons of parts of its two operands. With all parts equal the operator says "equal", and making any one '
        'defining data member (any one element of a fixed-size one, the first or last element of a variable one) unequal makes it say "unequal"; each comparison relates a member with the same member of the '
        'other object, so exchanging the operands changes nothing; and where a class has both operators one is the negation of the other for every combination of equal and unequal parts.')

# members that do not distinguish two objects, and why
EXEMPT = {
    'SubIt': {'_shape': 'iterators of one range share it', '_first': 'start of the range', '_inpt': 'restriction of the range', '_fixed': 'derived from _inpt', '_limits': '', },
    'SubIt2': {'_shape': 'iterators of one range share it', '_first': 'start of the range', '_fixed': 'restriction of the range', '_inpt': 'restriction of the range', '_limits': ''},
    'BroadcastIt': {k: 'iterators of one range share the shapes; the operand subscripts follow from the outer one' for k in ('_shape0', '_shape1', '_shapeO', '_sub0', '_sub1')},
    'BroadcastIt2': {k: 'iterators of one range share the shapes; the operand subscripts follow from the outer one' for k in ('_shape0', '_shape1', '_shapeO', '_sub0', '_sub1')},
    'ArrayIt': {'array': 'iterators of one range share the array'},
    'Array2It': {'array': 'iterators of one range share the array'},
    'Array2': {k: 'how the elements are stored, not what they are' for k in ('_num', '_shift', '_own', '_ref', '_mutable', '_stride')},
    'Array': {k: 'how the elements are stored, not what they are' for k in ('_num', '_shift', '_own', '_ref', '_mutable', '_stride')},
    'Interpolator': {'_scalarfun': 'functions can not be compared; _funtype stands for them', '_vectorfun': 'functions can not be compared; _funtype stands for them'},
    'Impl': {k: 'two lattices are the same if their basis vectors are (documented)' for k in ('_real_metric', '_reciprocal_metric', '_bravais', '_space', '_point', '_basis', '_spacegroup', '_pointgroup')},
    'PolyTrellis': {'approx_': 'tolerances of the comparison, not part of the trellis'},
}
APPROX = re.compile(r'approx_float::(equal|scalar|vector|matrix|array|is_equal|_?\w*(vector|matrix|array|scalar))$')


def hook(root, delegates):
    def h(E, q, fn, n, args, s):
        f = E.F.funcs.get(n.get('f'))
        if fn in ('operator==', 'operator!=') and f is not None and f.get('csn'):
            xs = ([n['obj']] if 'obj' in n else []) + list(args)
            if len(xs) != 2:
                return None
            vs = [E.read(o, s) if o[0] == 'var' else o for o in (E.obj(x, s) for x in xs)]
            if set(vs) == {('this',), ('param', 0, root['params'][0]['n'])}:
                if f['csn'] == root['csn']:
                    return None                     # one operator stated by means of the other
                vs = [('fld', v, 'base ' + f['csn'].split('::')[-1]) for v in vs]
            return T.cmp('==' if fn == 'operator==' else '!=', *vs)
        if q and APPROX.search(q) and f is not None and f['rt'] == 'bool':
            vs = []
            for a in args:
                v = E.rv(a, s)
                if v[0] == 'ptr':
                    try:
                        c = E.read(v[1], s)
                    except Exception:
                        c = v[1]
                    v = c
                vs.append(v)
            vs = [v for v in vs if T.has(v, lambda x: x == ('this',) or x[0] == 'param') or v[0] == 'list']
            if len(vs) == 2:
                return ('cmp', 'eq', ('approx', vs[0]), vs[1])
        return None
    return h


def members(t, root):
    """{member: set of the element positions used or 'all'} of the object `root` a term reads"""
    out = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == 'call' and x[1] == 'size' and len(x) > 2 and x[2][0] == 'fld' and x[2][1] == root:
            out.setdefault(x[2][2], set()).add('size')
            return
        if x[0] == 'at' and x[1][0] == 'fld' and x[1][1] == root:
            c = T.const(x[2])
            out.setdefault(x[1][2], set()).add(int(c) if c is not None else 'all')
            go(x[2])
            return
        if x[0] == 'fld' and x[1] == root:
            out.setdefault(x[2], set()).add('whole')
            return
        if x == root:
            out.setdefault('*', set()).add('all')
            return
        for y in x:
            if isinstance(y, tuple):
                go(y)
    go(t)
    return out


class Truth:
    """Value of a formula when exactly the part `un` = (member, element or None) of the two objects is unequal."""
    def __init__(self, par, un, approx_exact=None):
        self.par, self.un = par, un

    def reach(self, t, lim):
        """the sub-term reads the unequal part, within the ranges of the quantifiers around it"""
        return all(self.reads(members(t, root), lim) for root in (('this',), self.par))

    def reads(self, ms, lim):
        m, e = self.un
        if not m:
            return False
        if '*' in ms:
            return True
        if e == 'size' and any('size' in p for p in ms.values()):
            return True
        if m not in ms:
            return False
        p = ms[m]
        if e is None:
            return bool(p - {'size'})
        if e == 'size':
            return 'whole' in p
        if 'whole' in p:
            return True
        if isinstance(e, int):
            return e in p or 'all' in p and all(lo is None or lo <= e and (hi is None or e < hi) for lo, hi, _ in lim)
        if 'all' in p:   # e is 'first' or 'last' of a container of unknown size
            return all((lo in (None, 0) if e == 'first' else not short) for lo, hi, short in lim)
        return e == 'first' and 0 in p

    def ev(self, t, lim=()):
        k = t[0]
        if k == 'bool':
            return t[1]
        if k == 'not':
            x = self.ev(t[1], lim)
            return None if x is None else not x
        if k in ('and', 'or'):
            xs = [self.ev(x, lim) for x in t[1:]]
            z = k == 'or'
            return z if z in xs else None if None in xs else not z
        if k == 'ite':
            c = self.ev(t[1], lim)
            a, b = self.ev(t[2], lim), self.ev(t[3], lim)
            return a if c is True else b if c is False else a if a == b else None
        if k == 'exists':
            lo, hi = T.const(t[2]), T.const(t[3])
            short = False
            if hi is None and t[3][0] == 'poly':
                cs = [c for m, c in t[3][1] if m == ()]
                short = bool(cs) and cs[0] < 0 or any(c != 1 for m, c in t[3][1] if m != ())
            return self.ev(t[4], lim + ((lo, hi, short),))
        if k in ('cmp', 'call'):
            both = T.has(t, lambda x: x == ('this',)) and T.has(t, lambda x: x == self.par)
            if not both:
                return None
            if k == 'cmp' and t[1] in ('eq', 'ne'):
                if t[3] == T.ZERO and t[2][0] in ('and', 'or', 'not', 'cmp', 'ite', 'exists') or t[3] == T.ZERO and t[2][0] == 'call' and isbool(t[2]):
                    x = self.ev(t[2], lim)
                    return None if x is None else x == (t[1] == 'ne')
                return (not self.reach(t, lim)) == (t[1] == 'eq')
            if k == 'call' and isbool(t):
                neg = t[1].split('::')[-1] in ('operator!=', 'is_not_approx')
                return (not self.reach(t, lim)) != neg
            if k == 'cmp' and t[1] in ('le', 'lt'):
                return None
        return None


def isbool(t):
    return t[0] == 'call' and t[1].split('::')[-1] in ('operator==', 'operator!=', 'is_permutation', 'is_not_approx', 'is_approx', 'equal', 'is')


def related(v, m, par):
    """Some comparison or call reads the member (or all) of both objects."""
    return any(x[0] in ('cmp', 'call') and all(any(k in (m, '*') and p - {'size'} for k, p in members(x, r).items()) for r in (('this',), par)) for x in T.subterms(v))


def atoms(t):
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == 'cmp' and x[1] in ('eq', 'ne') and not (x[3] == T.ZERO and x[2][0] in ('and', 'or', 'not', 'cmp', 'ite', 'exists', 'call')):
            out.append(x)
            return
        for y in x:
            if isinstance(y, tuple):
                go(y)
    go(t)
    return out


def swap(t, par):
    if t == ('this',):
        return par
    if t == par:
        return ('this',)
    return tuple(swap(x, par) if isinstance(x, tuple) else x for x in t)


def summarise(F, f):
    E = summ.Eval(F, unroll=8, inline_depth=8, budget=80000)
    E.inline_val = True
    E.hook = hook(f, [])
    return E.function(f).value


def whole(F, f):
    E = summ.Eval(F, unroll=10, inline_depth=8, budget=80000)
    E.inline_val = True
    return E.function(f).value


def empty(F, b):
    rs = [r for r in F.records.values() if r.get('sn', '').split('::')[-1] == b.split('<')[0].split('::')[-1]]
    return bool(rs) and all(not r['fields'] and not r.get('bases') for r in rs)


def parts(F, rec, name):
    """(member, element) pairs that must each decide"""
    ex = EXEMPT.get(name, {})
    out = []
    for m in rec['fields']:
        if m['n'] in ex or m.get('static'):
            continue
        a = re.match(r'^std::array<(.+), (\d+)>$', bare(m['t']).replace('UL', ''))
        if a and int(a.group(2)) <= 9:
            out += [(m['n'], i) for i in range(int(a.group(2)))]
        elif bare(m['t']).startswith('std::vector<'):
            out += [(m['n'], 'first'), (m['n'], 'last'), (m['n'], 'size')]
        else:
            out.append((m['n'], None))
    return out


def run(tier):
    C = core.Check('P21', tier, RULE)
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'src/symmetry.cpp', 'src/polyhedron_faces.cpp'])
    byc, done = {}, set()
    for f in sorted(F.concrete(), key=lambda f: (f['file'], f['l'], f['cls'] if f.get('csn') else '')):
        if f.get('csn') and f['fn'] in ('operator==', 'operator!=') and f.get('body') and len(f['params']) == 1:
            if core.bare(f['params'][0]['t']).split('<')[0] != f['csn'] or (f['file'], f['l'], f['fn']) in done:
                continue
            done.add((f['file'], f['l'], f['fn']))
            byc.setdefault(f['csn'], []).append(f)
    for c, fs in sorted(byc.items()):
        name = c.split('::')[-1]
        rs = [r for r in F.records.values() if r.get('sn') == c and r['fields']] or [r for r in F.records.values() if r.get('sn') == c]
        rec = next((r for r in rs if not r.get('dep')), rs[0] if rs else None)
        vals = {}
        for f in fs:
            what = '%s::%s' % (name, f['fn'])
            eq = f['fn'] == 'operator=='
            par = ('param', 0, f['params'][0]['n'])
            try:
                v = summarise(F, f)
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
                C.undecided('members', '%s: %s' % (what, str(e)[:60])); continue
            vals[f['fn']] = (f, v)
            base = Truth(par, ('', None)).ev(v)
            if base is None and T.has(v, lambda x: x[0] == 'opaque'):
                C.undecided('members', what + ': not understood'); continue
            if base is not None and base != eq:
                C.bad('members', what, loc(f), '%s says %s of two objects all parts of which are equal' % (what, 'unequal' if eq else 'not equal')); continue
            if rec is None:
                C.undecided('members', what + ': members'); continue
            ps = parts(F, rec, name) + [('base ' + b.split('<')[0].split('::')[-1], None) for b in [bare(x['t'] if isinstance(x, dict) else x) for x in rec.get('bases', [])] if not empty(F, b)]
            for m, e in ps:
                r = Truth(par, (m, e)).ev(v)
                w = '%s %s%s' % (what, m, '' if e is None else '[%s]' % e)
                if r is None and not T.has(v, lambda x: x[0] in ('opaque', 'throw')) and not related(v, m, par):
                    C.bad('members', '%s|%s' % (what, m), loc(f), '%s never compares %s of one object with that of the other' % (what, m))
                elif r is None:
                    C.undecided('members', w)
                elif r == eq:
                    C.bad('members', '%s|%s' % (what, m), loc(f), '%s gives the same answer whether or not %s%s of the two objects is equal' % (what, m, '' if e is None else ' (element %s)' % e))
                else:
                    C.instance('members', w)
            self_cmp = True
            unsure = False
            for a in atoms(v):
                l, r = members(a, ('this',)), members(a, par)
                if not l and not r:
                    continue
                if set(l) != set(r) and '*' not in l and '*' not in r:
                    if l and r:
                        C.bad('exchange', what, loc(f), '%s compares %s of one object with %s of the other' % (what, ', '.join(sorted(l)), ', '.join(sorted(r)))); self_cmp = False; break
                    unsure = True
            if not self_cmp:
                continue
            try:
                wv = whole(F, f)
                k, why = tval.compare(wv, swap(wv, par), seeds=40)
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError, tval.NoValue) as e:
                k = 'unknown'
            one = next((a for a in atoms(v) if lopsided(a, par)), None)
            if one is not None:
                C.bad('exchange', what, loc(f), '%s: the comparison of %s depends on which object is the left one' % (what, ', '.join(sorted(members(one, ('this',)))))); continue
            st = [T.canon(a) == T.canon(canon_eq(swap(a, par))) for a in atoms(v)]
            if all(st) and st and not unsure:
                C.instance('exchange', what)
            elif k == 'same':
                C.instance('exchange', what)
            else:
                C.undecided('exchange', what + (' (identity test: %s)' % k))
        if len(vals) == 2:
            (fe, ve), (fn, vn) = vals['operator=='], vals['operator!=']
            vn = rename(vn, ('param', 0, fn['params'][0]['n']), ('param', 0, fe['params'][0]['n']))
            par = ('param', 0, fe['params'][0]['n'])
            what = '%s: == and !=' % name
            if T.canon(T.NOT(ve)) == T.canon(vn):
                C.instance('negation', what); continue
            if tolerant(F, fe) != tolerant(F, fn):
                C.bad('negation', name, loc(fn), '%s: one of == and != compares approximately and the other exactly, so two objects can be both equal and unequal' % name); continue
            ps = parts(F, rec, name) if rec else []
            rs = [(Truth(par, p).ev(ve), Truth(par, p).ev(vn), p) for p in ps + [('', None)]]
            bad = [p for a, b, p in rs if a is not None and a == b]
            if bad:
                C.bad('negation', name, loc(fn), '%s: == and != give the same answer when %s differs' % (name, bad[0][0] or 'nothing'))
            elif any(a is None or b is None for a, b, p in rs):
                try:
                    k = tval.compare(T.NOT(whole(F, fe)), rename(whole(F, fn), ('param', 0, fn['params'][0]['n']), par), seeds=40)[0]
                except Exception:
                    k = 'unknown'
                C.instance('negation', what) if k == 'same' else C.undecided('negation', what)
            else:
                C.instance('negation', what)
    C.floor('members', 40)
    C.floor('exchange', 10)
    C.floor('negation', 6)
    C.assumptions += ['Members listed as exempt do not distinguish two objects: ' + '; '.join('%s: %s' % (k, ', '.join(v)) for k, v in EXEMPT.items()),
                      'The quantified ranges of element comparisons are not empty when an element differs']
    return C.finish()


def canon_eq(t):
    """comparisons re-sorted after a substitution"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(canon_eq(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'cmp' and t[1] in ('eq', 'ne') and len(t) == 4:
        a, b = t[2], t[3]
        return T.cmp('==' if t[1] == 'eq' else '!=', a, b) if a[0] not in ('approx',) and b[0] != 'approx' else t
    return t


def tolerant(F, f):
    """The function compares with tolerances, itself or in what it calls."""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g['f'] in seen or len(seen) > 200:
            continue
        seen.add(g['f'])
        if 'approx_float::' in (g.get('q') or '') or (g.get('csn') or '').endswith('Comparer'):
            return True
        for n in core.walk(g.get('body') or {}):
            if n.get('k') in ('call', 'ctor') and (n.get('q') or '').startswith('brille::approx_float') or n.get('k') == 'ctor' and n.get('fn') == 'Comparer':
                return True
            if n.get('f') in F.funcs and n.get('k') in ('call', 'ctor'):
                todo.append(F.funcs[n['f']])
    return False


def lopsided(a, par):
    """A comparison of arithmetic on both objects that changes (not only its sign) when they are exchanged."""
    if not T.has(a, lambda x: x == ('this',)) or not T.has(a, lambda x: x == par) or T.has(a, lambda x: x[0] in ('opaque', 'throw', 'exists', 'call') and (x[0] != 'call' or not str(x[1]).startswith('std::'))):
        return False
    l, r = (a[2][1] if a[2][0] == 'approx' else a[2]), a[3]
    if not (T.has(l, lambda x: x[0] == 'poly') or T.has(r, lambda x: x[0] == 'poly')):
        return False
    xs = list(zip(l[1:], r[1:])) if l[0] == r[0] == 'list' and len(l) == len(r) else [(l, r)]
    for x, y in xs:
        if x[0] == 'list' or y[0] == 'list':
            continue
        if not (T.has(x, lambda z: z[0] == 'poly') or T.has(y, lambda z: z[0] == 'poly')):
            continue
        d = T.sub(x, y)
        try:
            k1 = tval.compare(d, swap(d, par), seeds=24)[0]
            k2 = tval.compare(d, T.neg(swap(d, par)), seeds=24)[0]
        except Exception:
            continue
        if k1 == 'differ' and k2 == 'differ':
            return True
    return False


def rename(t, a, b):
    if t == a:
        return b
    return tuple(rename(x, a, b) if isinstance(x, tuple) else x for x in t)
