"""P10: array arithmetic applies the written operator to the written operands (value graphs of every operator overload)."""
import itertools
import re
import core
import summ
import terms as T
import tval
from core import loc, bare
from terms import num, add, sub, mul

RULE = ('Every overload of + - * / and their in-place forms on arrays and lattice vectors (array with array, scalar on either side, std::array, unary minus) is summarised on operands of known '
        'small extents and unknown elements, contiguous or not: the element under every subscript of the result is the written operator applied to the elements of the written operands in the '
        'written order with extents of one repeated, the shape is the broadcast shape, operands of the plain forms and the right operand of the in-place forms are not written, and neither are '
        'cells outside the view of the left operand; an in-place form whose right operand does not fit throws before it writes. The binary-operator object computes the operation its enumerator names.')
OPS = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator+=': '+', 'operator-=': '-', 'operator*=': '*', 'operator/=': '/'}


def kind(t):
    t = bare(t)
    m = re.match(r'^brille::(?:lattice::)?(Array2|Array|LVec)<(.+)>$', t)
    if m:
        return m.group(1), m.group(2)
    m = re.match(r'^std::array<(.+), (\d+)>$', t.replace('UL', ''))
    if m:
        return 'std', m.group(1)
    return ('scalar', t) if summ.isarith(t) else (None, t)


def common(a, b):
    order = ['int', 'unsigned int', 'long', 'unsigned long', 'float', 'double']
    return a if a not in order or (b in order and order.index(a) >= order.index(b)) else b


class Operand:
    """An array object with symbolic elements in the memory block named after it."""
    def __init__(self, knd, name, shape, order, shift, pad, mut=True, lat='lat'):
        self.kind, self.name, self.shape = knd, name, shape
        n = len(shape)
        st, run = [0] * n, 1
        for i in (range(n - 1, -1, -1) if order == 'row' else range(n)):
            st[i] = run
            run *= shape[i] + pad
        self.stride, self.shift = st, shift
        r = [('_data', ('ptr', ('mem', name), T.ZERO)), ('_num', num(run + shift)), ('_shift', num(shift)), ('_own', T.TRUE), ('_ref', ('param', 90, 'ref' + name)), ('_mutable', ('bool', mut)),
             ('_shape', ('list',) + tuple(map(num, shape))), ('_stride', ('list',) + tuple(map(num, st)))]
        if knd == 'LVec':
            r += [('_type', ('param', 91, 'type')), ('_lattice', ('param', 92, lat))]
        self.rec = ('rec',) + tuple(r)

    def cell(self, s):
        return self.shift + sum(a * b for a, b in zip(s, self.stride))

    def at(self, s):
        s = [0 if e == 1 else x for x, e in zip(s, self.shape)]
        return ('at', ('mem', self.name), num(self.cell(s)))

    def subs(self):
        return itertools.product(*[range(e) for e in self.shape])


def readobj(E, S, v, knd):
    """(shape, element reader) of a returned array value."""
    if v is None:
        return None
    if v[0] in ('var', 'fld', 'at', 'this'):
        v = E.read(v, S)
    if v[0] != 'rec':
        return None
    g = dict(v[1:])
    try:
        d = g['_data']
        sh = [T.const(x) for x in g['_shape'][1:]]
        st = [T.const(x) for x in g['_stride'][1:]]
        off = T.const(g['_shift'])
    except KeyError:
        return None
    if d[0] != 'ptr' or None in sh or None in st or off is None:
        return None

    def el(s):
        return E.read(('at', d[1], add(d[2], num(off + sum(a * b for a, b in zip(s, st))))), S)
    return [int(x) for x in sh], el, g


def bshape(a, b):
    return [x if y == 1 else y for x, y in zip(a, b)]


LAYOUTS = [('row', 4, 0), ('row', 3, 2), ('col', 1, 0), ('row', 0, 0)]


def shapes(k, left, right):
    """Pairs of operand shapes for two array kinds."""
    last = 3 if 'LVec' in (left, right) else 2
    if k == 'in':
        ps = [((2, last), (2, last)), ((2, last), (1, last)), ((2, last), (2, 1)), ((2, last), (1, 1))]
        if right == 'LVec':
            ps = [p for p in ps if p[1][1] == 3]
        if left == 'Array' and right == 'Array':
            ps += [((2, 1, 2), (2, 1, 2)), ((2, 1, 2), (1, 1, 2)), ((3,), (3,)), ((3,), (1,))]
        return ps
    ps = [((2, last), (2, last)), ((1, last), (2, last)), ((2, last), (1, last)), ((2, 1), (1, last)), ((2, last), (2, 1)), ((2, 1), (2, last)), ((1, 1), (2, last))]
    ps = [p for p in ps if (left != 'LVec' or p[0][1] == 3) and (right != 'LVec' or p[1][1] == 3)]
    if left == 'Array' and right == 'Array':
        ps += [((2, 1, 2), (1, 2, 1)), ((3,), (3,)), ((1,), (3,)), ((3,), (1,))]
    return ps


def use_count(E, q, fn, n, args, s):
    """A copy of an operand shares its reference count with the operand, which is alive; new storage has one owner."""
    if fn == 'use_count' and 'obj' in n:
        b = E.obj(n['obj'], s)
        v = E.read(b, s) if b[0] in ('var', 'fld', 'at', 'this') else b
        return num(2 if v[0] == 'param' else 1)
    return None


class Run:
    def __init__(self, C, F):
        self.C, self.F = C, F

    def ev(self, f, args, this=None):
        E = summ.Eval(self.F, unroll=24, inline_depth=14, budget=400000)
        E.objects = True
        E.inline_val = True
        E.hook = use_count
        S = summ.State()
        xs = []
        for i, a in enumerate(args):
            if isinstance(a, Operand):
                l = ('var', 'arg%d' % i)
                S.st[l] = a.rec
                xs.append(l)
            else:
                xs.append(a)
        if this is not None:
            S.st[('var', 'self')] = this.rec
        r = E.function(f, xs, this=('var', 'self') if this is not None else None, state=S)
        return E, r

    def elem(self, E, op, a, b, t):
        return E.arith(op, a, b, t)

    def check(self, f):
        C = self.C
        op = OPS[f['fn']]
        inplace = f['fn'].endswith('=')
        ps = [kind(p['t']) for p in f['params']]
        member = bool(f.get('csn'))
        self_k = kind(f['cls']) if member else None
        if self_k and self_k[0] is None or any(p[0] is None for p in ps):
            return
        ops = ([self_k] if member else []) + ps
        what = '%s(%s)%s' % (f['fn'], ', '.join('%s<%s>' % k for k in ops), '')
        if len(ops) == 2 and ops[0] == ('std', ops[0][1]):
            return self.matrix(f, what)
        if not any(k in ('Array', 'Array2', 'LVec') for k, _ in ops):
            return
        ets = [e for _, e in ops]
        et = ets[0] if len(ets) == 1 else common(ets[0], ets[1])
        if inplace and len(ets) == 2 and et != ets[0]:
            return
        if inplace and len(ops) == 2 and member and ops[1][0] in ('Array', 'Array2', 'LVec'):
            self.refuse(f, what, ops)
        cases = []
        for lo in LAYOUTS:
            if len(ops) == 1:
                for sh in ((2, 3), (1, 3)) if ops[0][0] == 'LVec' else ((2, 2), (1, 3)):
                    cases.append((lo, (sh,)))
            else:
                l, r = ops[0][0], ops[1][0]
                if r == 'scalar' or r == 'std':
                    w = 3 if l == 'LVec' or r == 'std' else 2
                    cases += [(lo, ((2, w), None)), (lo, ((1, w), None))]
                elif l == 'scalar':
                    cases += [(lo, (None, (2, 3)))]
                else:
                    cases += [(lo, p) for p in shapes('in' if inplace else '', l, r)]
        seen = set()
        for lo, sh in cases:
            if lo == LAYOUTS[3]:
                if lo in seen:
                    continue
                seen.add(lo)
            args = []
            for i, ((k, e), s) in enumerate(zip(ops, sh)):
                if k in ('Array', 'Array2', 'LVec'):
                    od, shift, pad = lo if i == 0 or ops[0][0] == 'scalar' else LAYOUTS[(LAYOUTS.index(lo) + 1) % 4]
                    args.append(Operand(k, 'ab'[i], list(s), od, shift, pad))
                elif k == 'std':
                    args.append(('list',) + tuple(('param', i, 'b%d' % j) for j in range(3)))
                else:
                    args.append(('param', i, 'b'))
            w2 = '%s on %s, %s' % (what, ' and '.join('x'.join(map(str, s)) if s else 'a scalar' if k[0] == 'scalar' else '3' for s, k in zip(sh, ops)),
                                   'row order' if lo in (LAYOUTS[0], LAYOUTS[3]) else 'a strided view' if lo == LAYOUTS[1] else 'column order')
            try:
                E, r = self.ev(f, args[1:] if member else args, args[0] if member else None)
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError) as e:
                C.undecided('element', '%s: %s' % (w2, str(e)[:80])); continue
            S = r.final
            if S is None:
                if r.value is not None and r.value[0] == 'throw' or r.exits and all(e[0] == 'throw' for e in r.exits):
                    C.bad('element', f['fn'] + ':' + '/'.join(k for k, _ in ops), loc(f), '%s is refused' % w2)
                else:
                    C.undecided('element', w2 + ': no result')
                continue
            arrs = [a.shape for a in args if isinstance(a, Operand)]
            want_sh = arrs[0] if len(arrs) == 1 or inplace else bshape(arrs[0], arrs[1])
            key = f['fn'] + ':' + '/'.join(k for k, _ in ops)

            def expect(s):
                xs = []
                for a in args:
                    xs.append(a.at(s) if isinstance(a, Operand) else ('param',) + a[1 + s[-1]][1:] if a[0] == 'list' else a)
                return T.neg(xs[0]) if len(xs) == 1 else self.elem(E, op, xs[0], xs[1], et)
            if inplace:
                sh2, el, g = list(want_sh), (lambda s: E.read(args[0].at(s), S)), None
            else:
                o = readobj(E, S, r.value, None)
                if o is None:
                    C.undecided('element', '%s: the result is not understood' % w2); continue
                sh2, el, g = o
            if sh2 != list(want_sh):
                C.bad('shape', key, loc(f), '%s has shape %s, expected %s' % (w2, sh2, list(want_sh))); continue
            C.instance('shape', w2)
            st = 'same'
            for s in itertools.product(*[range(e) for e in want_sh]):
                v = el(s)
                if v is None or T.has(v, lambda x: x[0] == 'opaque'):
                    st = 'und'; C.undecided('element', '%s: element %s' % (w2, s)); break
                x = expect(s)
                if v == x:
                    continue
                res, why = tval.compare(v, x, {})
                if res == 'differ':
                    C.bad('element', key, loc(f), '%s: element %s is %s, expected %s' % (w2, s, T.show(v)[:120], T.show(x)[:120])); st = 'bad'; break
                if res != 'same':
                    st = 'und'; C.undecided('element', '%s: element %s: %s' % (w2, s, why)); break
            if st == 'same':
                C.instance('element', w2)
            # nothing else is written
            okcells = {args[0].at(s)[2] for s in args[0].subs()} if inplace else set()
            wrong = []
            for l, v in S.st.items():
                if l[0] == 'at' and l[1][0] == 'mem' and v != l:
                    if l[1][1] == 'a' and inplace and l[2] in okcells:
                        continue
                    wrong.append(T.show(l))
            if any(m[2][0] == 'mem' for m in S.maps if len(m) > 2 and isinstance(m[2], tuple) and m[2]):
                C.undecided('writes', w2); continue
            if wrong:
                C.bad('writes', key, loc(f), '%s also writes %s' % (w2, ', '.join(wrong[:3])))
            else:
                C.instance('writes', w2)
            if not inplace and g is not None and g['_data'][0] == 'ptr' and g['_data'][1][0] == 'mem':
                C.bad('writes', key, loc(f), '%s shares the storage of an operand' % w2)

    def refuse(self, f, what, ops):
        """An in-place operator with a right operand that does not fit throws and writes nothing."""
        C = self.C
        l, r = ops[0][0], ops[1][0]
        last = 3 if 'LVec' in (l, r) else 2
        for sh in (((1, last), (2, last)), ((2, 1), (2, last))):
            if l == 'LVec' and sh[0][1] != 3:
                continue
            w = '%s of %s by %s' % (what, 'x'.join(map(str, sh[0])), 'x'.join(map(str, sh[1])))
            try:
                E, q = self.ev(f, [Operand(r, 'b', list(sh[1]), 'row', 0, 0)], Operand(l, 'a', list(sh[0]), 'row', 0, 0))
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError) as e:
                C.undecided('refuse', '%s: %s' % (w, str(e)[:80])); continue
            live = [e for e in q.exits if e[0] != 'throw' and e[1] != T.FALSE]
            if not live and any(e[0] == 'throw' for e in q.exits):
                wr = [T.show(k) for k, v in (x for e in q.exits for x in (e[3].st.items() if len(e) > 3 and e[3] is not None else ())) if k[0] == 'at' and k[1][0] == 'mem' and v != k]
                if wr:
                    C.bad('refuse', f['fn'] + ':%s/%s' % (l, r), loc(f), '%s is refused after writing %s' % (w, wr[0]))
                else:
                    C.instance('refuse', w)
            elif any(e[1] not in (T.TRUE, T.FALSE) for e in live):
                C.undecided('refuse', w)
            else:
                C.bad('refuse', f['fn'] + ':%s/%s' % (l, r), loc(f), '%s is accepted' % w)

    def matrix(self, f, what):
        """3x3 matrix times lattice vectors."""
        C = self.C
        if f['fn'] != 'operator*' or kind(f['params'][1]['t'])[0] != 'LVec':
            return
        m = ('list',) + tuple(('param', 0, 'm%d' % i) for i in range(9))
        for n in (1, 2):
            b = Operand('LVec', 'b', [n, 3], 'row', 0 if n == 1 else 3, 0)
            w = '%s on %dx3' % (what, n)
            try:
                E, r = self.ev(f, [m, b])
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError) as e:
                C.undecided('element', '%s: %s' % (w, str(e)[:80])); continue
            o = readobj(E, r.final, r.value, None) if r.final is not None else None
            if o is None:
                C.undecided('element', w + ': the result is not understood'); continue
            for i in range(n):
                for j in range(3):
                    x = T.ZERO
                    for k in range(3):
                        x = add(x, mul(m[1 + 3 * j + k], b.at((i, k))))
                    v = o[1]((i, j))
                    if T.has(v, lambda t: t[0] == 'opaque'):
                        C.undecided('element', w); break
                    if v != x and tval.compare(v, x, {})[0] == 'differ':
                        C.bad('element', 'operator*:std/LVec', loc(f), '%s: element (%d,%d) is %s, expected %s' % (w, i, j, T.show(v)[:120], T.show(x)[:120])); break
                else:
                    continue
                break
            else:
                C.instance('element', w)


def binop(R):
    C, F = R.C, R.F
    want = {'plus': lambda a, b: add(a, b), 'minus': lambda a, b: sub(a, b), 'times': lambda a, b: mul(a, b), 'rdiv': lambda a, b: ('/', a, b), 'ldiv': lambda a, b: ('/', b, a)}
    ops = next((e for e in F.enums.values() if e['q'] == 'brille::ops'), None)
    if ops is None:
        C.undecided('binop', 'the enumeration of operations is gone'); return
    for T_ in ('double', 'int'):
        cls = 'brille::RawBinaryOperator<%s>' % T_
        cons = [f for f in F.concrete() if f.get('cls') == cls and f.get('ctor') and len(f['params']) == 1 and 'ops' in f['params'][0]['t']]
        calls = [f for f in F.concrete() if f.get('cls') == cls and f['fn'] == 'operator()']
        for c in cons[:1]:
            for e in ops['vals'] if 'vals' in ops else ops['c']:
                name, value = e['n'], e['v']
                if name not in want:
                    C.undecided('binop', name); continue
                for f in calls:
                    n = len(f['params'])
                    w = 'ops::%s on %s, %d arguments' % (name, T_, n)
                    E = summ.Eval(F, unroll=16, inline_depth=9, budget=100000)
                    E.objects = True
                    try:
                        r0 = E.function(c, [('enum', 'brille::ops::' + name)], this=('var', 'self'))
                        S = r0.final
                        a, b, o = ('mem', 'a'), ('mem', 'b'), ('mem', 'c')
                        P = lambda x: ('ptr', x, T.ZERO)
                        if n == 2:
                            r = E.function(f, [('param', 0, 'x'), ('param', 1, 'y')], this=('var', 'self'), state=S)
                            got = [(r.value, ('param', 0, 'x'), ('param', 1, 'y'))]
                        elif n == 4:
                            r = E.function(f, [num(3), P(o), P(a), P(b)], this=('var', 'self'), state=S)
                            got = [(E.read(('at', o, num(i)), r.final), ('at', a, num(i)), ('at', b, num(i))) for i in range(3)]
                        elif n == 7:
                            r = E.function(f, [num(3), P(o), num(5), P(a), num(2), P(b), num(3)], this=('var', 'self'), state=S)
                            got = [(E.read(('at', o, num(5 * i)), r.final), ('at', a, num(2 * i)), ('at', b, num(3 * i))) for i in range(3)]
                        else:
                            C.undecided('binop', w); continue
                    except (summ.Undecided, RecursionError, KeyError, TypeError, AttributeError) as e:
                        C.undecided('binop', '%s: %s' % (w, str(e)[:80])); continue
                    for v, x, y in got:
                        z = want[name](x, y)
                        z = E.arith('/', z[1], z[2], T_) if z[0] == '/' else z
                        if v is None or T.has(v, lambda t: t[0] == 'opaque'):
                            C.undecided('binop', w + ': ' + T.show(v or ())[:60]); break
                        if v != z and tval.compare(v, z, {})[0] == 'differ':
                            C.bad('binop', name, loc(f), '%s gives %s, expected %s' % (w, T.show(v)[:100], T.show(z)[:100])); break
                    else:
                        C.instance('binop', w)


def run(tier):
    C = core.Check('P10', tier, RULE)
    F = C.facts(['d_arith.cpp'])
    R = Run(C, F)
    done = set()
    for f in F.concrete():
        if f['fn'] not in OPS or f.get('body') is None or f['f'] in done:
            continue
        done.add(f['f'])
        R.check(f)
    binop(R)
    C.floor('element', 150)
    C.floor('shape', 150)
    C.floor('binop', 10)
    C.floor('refuse', 10)
    C.assumptions += ['loops over subscripts treat every extent above one alike, so extents up to three decide the operators',
                      'conversions between element types are those of the language and are not tracked']
    return C.finish()
