"""P18: subscripts and linear positions correspond one to one (value graphs of the iterators, conversions and accessors)."""
import itertools
import core
import summ
import terms as T
import tval
from core import loc
from terms import num, cmp, add, mul, ite, AND, NOT

RULE = ('For every number of dimensions up to four and every mask of held dimensions, with the extents and the current subscript left symbolic: begin() is the first position, ++ is the '
        'row-order successor, ++ of the last position compares equal to end(), no valid position does, and a shape without positions starts at its end; the broadcasting iterators step the '
        'outer subscript the same way and give each operand its own subscript (0 along a dimension it has once). sub2lin is the sum of subscript times stride, lin2sub inverts it for strides '
        'of either order, the strides an array computes are those of its order, and every subscript accessor of the arrays reads the cell shift + sum of subscript times stride.')
THIS = ('this',)


def P(i, n):
    return ('param', i, n)


def LST(xs):
    return ('list',) + tuple(xs)


def prod(xs):
    r = T.ONE
    for x in xs:
        r = mul(r, x)
    return r


class Run:
    def __init__(self, C, F):
        self.C, self.F = C, F

    def ev(self, f, args, state=None, this=None, lams=None):
        E = summ.Eval(self.F, unroll=16, inline_depth=9, budget=200000)
        E.inline_val = True
        if lams is not None:
            E.lams = lams
        return E, E.function(f, args, state=state, this=this)

    def decide(self, rule, key, fn, got, want, what, fixed=None, assume=None, ty=None, leaf=None):
        C = self.C
        if got is None or T.has(got, lambda x: x[0] == 'opaque'):
            C.undecided(rule, what + ': not reduced')
            return
        leaves = {x for g in (got, want) for x in T.subterms(g) if x[0] == 'param'}
        ty = {x: 'unsigned int' for x in leaves}
        res, why = tval.compare(got, want, ty, seeds=120, fixed=fixed, assume=assume, leaf=leaf or small)
        if res == 'differ':
            C.bad(rule, key, loc(fn), '%s is %s, expected %s (%s)' % (what, T.show(got)[:160], T.show(want)[:160], why))
        elif res == 'same':
            C.instance(rule, '%s: %s' % (what, why))
        else:
            C.undecided(rule, '%s: %s' % (what, why))


def small(v, t):
    """leaves are small extents and subscripts, often zero"""
    if t[0] == 'param' or t[0] == 'fld':
        return (tval.h(t, v.seed) >> 3) % (2 if v.seed % 3 == 0 else 5)
    return None


def members(F, csn):
    return [f for f in F.concrete() if f.get('csn') == csn and f.get('body') is not None]


def elements(E, s, base, nd):
    return [E.read(('at', base, num(i)), s) for i in range(nd)]


def objval(v, i):
    """i-th element of a list valued term"""
    if v is not None and v[0] == 'list' and i < len(v) - 1:
        return v[1 + i]
    if v is not None and v[0] == 'ite':
        a, b = objval(v[2], i), objval(v[3], i)
        return None if a is None or b is None else ite(v[1], a, b)
    return None


def merged(c, a, b):
    if a == b:
        return a
    if a[0] == 'list' and b[0] == 'list' and len(a) == len(b):
        return LST([merged(c, x, y) for x, y in zip(a[1:], b[1:])])
    return ite(c, a, b)


def build(R, fs, term):
    """State of the object a constructor-call term describes."""
    if term is None:
        return None
    if term[0] == 'ite':
        a, b = build(R, fs, term[2]), build(R, fs, term[3])
        if a is None or b is None:
            return None
        r = a.copy()
        for k in list(a.st):
            if root(k) == THIS and k in b.st:
                r.st[k] = merged(term[1], a.st[k], b.st[k])
        return r
    if term[0] != 'call' or not str(term[1]).startswith('ctor:'):
        return None
    n = len(term) - 2
    for f in fs:
        if f.get('ctor') and len(f['params']) == n and not f['params'][-1]['t'].endswith('*'):
            E, r = R.ev(f, list(term[2:]))
            return r.final
    return None


def compare_objs(R, eqf, A, Bs):
    """operator== of the object with state A against the object with state Bs."""
    OTHER = ('other',)
    st = A.copy()
    def ren(t):
        if t == THIS:
            return OTHER
        if isinstance(t, tuple):
            return tuple(ren(x) for x in t)
        return t
    for k, v in Bs.st.items():
        if k[0] in ('fld', 'at') and root(k) == THIS:
            st.st[ren(k)] = ren(v)
    E = summ.Eval(R.F, unroll=16, inline_depth=9, budget=200000)
    p = eqf['params'][0]
    st.alias[p['d']] = OTHER
    E.this = THIS
    E.stack.append(eqf['f'])
    r = E.run_body(eqf, st)
    return r.value


def root(l):
    while l[0] in ('fld', 'at'):
        l = l[1]
    return l


def iterator(R, csn, dims):
    C, F = R.C, R.F
    fs = members(F, csn)
    one = lambda n, k=None: next((f for f in fs if f['fn'] == n and (k is None or len(f['params']) == k) and not f.get('ctor')), None)
    pp, eq, beg, end, der = one('operator++', 0), one('operator==', 1), one('begin', 0), one('end', 0), one('operator*', 0)
    full = next((f for f in fs if f.get('ctor') and len(f['params']) == 4), None)
    one_arg = next((f for f in fs if f.get('ctor') and len(f['params']) == 1 and 'SubIt' not in f['params'][0]['t']), None)
    two_arg = next((f for f in fs if f.get('ctor') and len(f['params']) == 2), None)
    if not (pp and eq and beg and end and der and full):
        C.undecided('successor', csn + ': members not found')
        return
    for nd in dims:
        IN = [P(100 + i, 'fixed%d' % i) for i in range(nd)]
        S = [P(200 + i, 's%d' % i) for i in range(nd)]
        D = [P(300 + i, 'more%d' % i) for i in range(nd)]
        for mask in itertools.product((False, True), repeat=nd):
            if all(mask):
                continue
            who = '%s in %d dimensions%s' % (csn, nd, '' if not any(mask) else ' with %s held' % ','.join(str(i) for i in range(nd) if mask[i]))
            free = [i for i in range(nd) if not mask[i]]
            def state(shape, sub):
                E, r = R.ev(full, [LST(shape), LST(IN), LST(sub), LST([('bool', m) for m in mask])])
                return r.final
            def after(st):
                E, r = R.ev(pp, [], state=st)
                return r.final
            def value(st):
                E, r = R.ev(der, [], state=st)
                v = r.value
                if v is not None and v[0] in ('fld', 'var'):
                    v = E.read(v, st)
                if v is None or v[0] != 'list':
                    v = LST(elements(E, st, ('fld', THIS, '_sub'), nd))
                else:
                    v = E.read(('fld', THIS, '_sub'), st) if ('fld', THIS, '_sub') in st.st else v
                return v
            try:
                # ++ below the end: extents are s+1+more, so `more == 0` is the last subscript of a dimension
                shape = [add(add(S[i], T.ONE), D[i]) for i in range(nd)]
                sub = [IN[i] if mask[i] else S[i] for i in range(nd)]
                st = after(state([add(add(sub[i], T.ONE), D[i]) for i in range(nd)], sub))
                got = value(st)
                carry = T.TRUE
                want = list(sub)
                for i in reversed(free):
                    last = cmp('==', D[i], T.ZERO)
                    if i == free[0]:
                        want[i] = ite(carry, add(sub[i], T.ONE), sub[i])
                    else:
                        want[i] = ite(carry, ite(last, T.ZERO, add(sub[i], T.ONE)), sub[i])
                        carry = AND(carry, last)
                for i in range(nd):
                    R.decide('successor', '%s|%d' % (csn, i), pp, objval(got, i), want[i], '%s: subscript %d after ++' % (who, i))
                # begin
                E, r = R.ev(beg, [], state=state(shape, sub))
                bo = build(R, fs, r.value)
                bs = value(bo) if bo else None
                for i in range(nd):
                    R.decide('begin', '%s|%d' % (csn, i), beg, objval(bs, i) if bs else None, IN[i] if mask[i] else T.ZERO, '%s: subscript %d at begin()' % (who, i),
                             assume=AND(*[cmp('<', T.ZERO, x) for x in shape]))
                # the successor of the last position is end(); no valid position is
                N = [P(400 + i, 'n%d' % i) for i in range(nd)]
                ext = [add(N[i], T.ONE) for i in range(nd)]
                lastp = [IN[i] if mask[i] else N[i] for i in range(nd)]
                a = after(state(ext, lastp))
                E, r = R.ev(end, [], state=state(ext, lastp))
                eo = build(R, fs, r.value)
                R.decide('end', csn + '|last', end, compare_objs(R, eq, a, eo) if eo else None, T.TRUE, '%s: "the position after the last one is end()"' % who)
                E, r = R.ev(end, [], state=state(shape, sub))
                eo = build(R, fs, r.value)
                R.decide('end', csn + '|valid', end, compare_objs(R, eq, state(shape, sub), eo) if eo else None, T.FALSE, '%s: "a valid position is end()"' % who)
                # a shape without positions
                for k in free:
                    ex0 = [T.ZERO if i == k else ext[i] for i in range(nd)]
                    s0 = state(ex0, [IN[i] if mask[i] else T.ZERO for i in range(nd)])
                    E, r = R.ev(beg, [], state=s0)
                    v = r.value
                    E, r2 = R.ev(end, [], state=s0)
                    bo, eo = build(R, fs, v), build(R, fs, r2.value)
                    R.decide('empty', '%s|%d' % (csn, k), beg, compare_objs(R, eq, bo, eo) if bo and eo else None, T.TRUE,
                             '%s: "begin() is end() when extent %d is zero"' % (who, k))
            except (summ.Undecided, RecursionError) as e:
                C.undecided('successor', '%s: %s' % (who, e))
        # constructors: what is held, and the first position
        for f, nm in ((one_arg, 'shape'), (two_arg, 'shape and subscripts')):
            if f is None:
                continue
            N = [P(400 + i, 'n%d' % i) for i in range(nd)]
            try:
                E, r = R.ev(f, [LST(N)] + ([LST(IN)] if f is two_arg else []))
            except (summ.Undecided, RecursionError) as e:
                C.undecided('construct', '%s: %s' % (csn, e)); continue
            for i in range(nd):
                held = cmp('<', IN[i], N[i]) if f is two_arg else T.FALSE
                got = E.read(('at', ('fld', THIS, '_fixed'), num(i)), r.final)
                R.decide('construct', '%s|%s|held' % (csn, nm), f, got, held, '%s(%s) in %d dimensions: "dimension %d is held"' % (csn, nm, nd, i))
                got = E.read(('at', ('fld', THIS, '_sub'), num(i)), r.final)
                R.decide('construct', '%s|%s|sub' % (csn, nm), f, got, ite(held, IN[i], T.ZERO), '%s(%s) in %d dimensions: first subscript %d' % (csn, nm, nd, i))


def broadcast(R, csn, dims):
    C, F = R.C, R.F
    fs = members(F, csn)
    one = lambda n, k=None: next((f for f in fs if f['fn'] == n and (k is None or len(f['params']) == k) and not f.get('ctor')), None)
    pp, eq, beg, end, der = one('operator++', 0), one('operator==', 1), one('begin', 0), one('end', 0), one('operator*', 0)
    two = next((f for f in fs if f.get('ctor') and len(f['params']) == 2), None)
    full = next((f for f in fs if f.get('ctor') and len(f['params']) == 6), None)
    size, shp = one('size', 0), one('shape', 0)
    if not (pp and eq and beg and end and der and two and full):
        C.undecided('broadcast', csn + ': members not found')
        return
    for nd in dims:
        S = [P(200 + i, 's%d' % i) for i in range(nd)]
        D = [P(300 + i, 'more%d' % i) for i in range(nd)]
        # the common shape, extents from {0,1,n}: 'b' both n, '0'/'1' operand 0/1 has the dimension once
        N = [P(400 + i, 'n%d' % i) for i in range(nd)]
        n2 = [add(x, num(2)) for x in N]
        for kind in itertools.product('b01zu', repeat=nd) if nd < 3 else itertools.product('b01', repeat=nd):
            sh0 = [{'b': n2[i], '0': T.ONE, '1': n2[i], 'z': T.ZERO, 'u': T.ONE}[k] for i, k in enumerate(kind)]
            sh1 = [{'b': n2[i], '0': n2[i], '1': T.ONE, 'z': T.ONE, 'u': T.ZERO}[k] for i, k in enumerate(kind)]
            out = [{'z': T.ZERO, 'u': T.ZERO}.get(k, n2[i]) for i, k in enumerate(kind)]
            who = '%s of %s and %s' % (csn, '(' + ','.join(T.show(x) for x in sh0) + ')', '(' + ','.join(T.show(x) for x in sh1) + ')')
            try:
                E, r = R.ev(two, [LST(sh0), LST(sh1)])
                if r.value is not None and r.value[0] == 'throw':
                    C.bad('broadcast', csn + '|refused', loc(two), who + ' is refused')
                    continue
                E2, q = R.ev(shp, [], state=r.final)
                v = q.value
                if v is not None and v[0] in ('fld', 'var'):
                    v = E2.read(v, r.final)
                for i in range(nd):
                    R.decide('broadcast', csn + '|shape', two, objval(v, i), out[i], '%s: common extent %d' % (who, i))
                if size is not None:
                    E2, q = R.ev(size, [], state=r.final)
                    R.decide('broadcast', csn + '|size', size, q.value, prod(out), who + ': number of positions')
                if 'z' in kind or 'u' in kind:
                    b, e = R.ev(beg, [], state=r.final)[1].value, R.ev(end, [], state=r.final)[1].value
                    bo, eo = build(R, fs, b), build(R, fs, e)
                    R.decide('empty', csn, beg, compare_objs(R, eq, bo, eo) if bo and eo else None, T.TRUE, who + ': "begin() is end()"')
                    continue
                # step from a valid outer subscript
                ext = [add(add(S[i], T.ONE), D[i]) for i in range(nd)]   # extents as far as the step is concerned; at least 2
                assume = AND(*[cmp('<', T.ONE, x) for x in ext])
                a0 = [T.ONE if kind[i] == '0' else ext[i] for i in range(nd)]
                a1 = [T.ONE if kind[i] == '1' else ext[i] for i in range(nd)]
                z = lambda own: [T.ZERO if own[i] == T.ONE else S[i] for i in range(nd)]
                E, r = R.ev(full, [LST(a0), LST(a1), LST(ext), LST(z(a0)), LST(z(a1)), LST(S)])
                st = R.ev(pp, [], state=r.final)[1].final
                E, q = R.ev(der, [], state=st)
                v = q.value
                carry = T.TRUE
                want = [None] * nd
                for i in reversed(range(nd)):
                    last = cmp('==', D[i], T.ZERO)
                    want[i] = ite(carry, add(S[i], T.ONE) if i == 0 else ite(last, T.ZERO, add(S[i], T.ONE)), S[i])
                    carry = AND(carry, last)
                for j, (nm, own) in enumerate((('outer', ext), ('first operand', a0), ('second operand', a1))):
                    part = v[1 + j] if v is not None and v[0] == 'tuple' and len(v) == 4 else None
                    if part is not None and part[0] in ('fld', 'var'):
                        part = E.read(part, st)
                    for i in range(nd):
                        w = want[i] if nm == 'outer' or own[i] != T.ONE else T.ZERO
                        got = objval(part, i) if part else None
                        if i == 0 and nm != 'outer':   # beyond the last position the operand subscripts are not used
                            as2 = AND(assume, NOT(AND(*[cmp('==', D[k], T.ZERO) for k in range(nd)])))
                        else:
                            as2 = assume
                        R.decide('broadcast', '%s|step|%s' % (csn, nm), pp, got, w, '%s: %s subscript %d after ++' % (who, nm, i), assume=as2)
                b = build(R, fs, R.ev(beg, [], state=r.final)[1].value)
                if b is not None:
                    E, q = R.ev(der, [], state=b)
                    for j in range(3):
                        part = q.value[1 + j] if q.value is not None and q.value[0] == 'tuple' else None
                        if part is not None and part[0] in ('fld', 'var'):
                            part = E.read(part, b)
                        for i in range(nd):
                            R.decide('begin', csn, beg, objval(part, i) if part else None, T.ZERO, '%s: subscript %d of %d at begin()' % (who, i, j), assume=assume)
                else:
                    C.undecided('begin', who)
                lastp = [add(x, T.ONE) for x in N]
                exl = n2
                b0 = [T.ONE if kind[i] == '0' else exl[i] for i in range(nd)]
                b1 = [T.ONE if kind[i] == '1' else exl[i] for i in range(nd)]
                zz = lambda own: [T.ZERO if own[i] == T.ONE else lastp[i] for i in range(nd)]
                E, r = R.ev(full, [LST(b0), LST(b1), LST(exl), LST(zz(b0)), LST(zz(b1)), LST(lastp)])
                a = R.ev(pp, [], state=r.final)[1].final
                eo = build(R, fs, R.ev(end, [], state=r.final)[1].value)
                R.decide('end', csn + '|last', end, compare_objs(R, eq, a, eo) if eo else None, T.TRUE, who + ': "the position after the last one is end()"')
                R.decide('end', csn + '|valid', end, compare_objs(R, eq, r.final, eo) if eo else None, T.FALSE, who + ': "the last position is end()"')
            except (summ.Undecided, RecursionError) as e:
                C.undecided('broadcast', '%s: %s' % (who, e))
        # shapes which do not agree are refused
        if nd <= 2:
            for i in range(nd):
                sh0 = [num(3)] * nd
                sh1 = [num(3)] * nd
                sh1[i] = num(2)
                E, r = R.ev(two, [LST(sh0), LST(sh1)])
                if r.value is not None and r.value[0] == 'throw' or any(x[0] == 'throw' and x[1] == T.TRUE for x in (getattr(r, 'exits', None) or [])):
                    C.instance('refused', '%s of extents 3 and 2 along %d of %d is refused' % (csn, i, nd))
                elif r.value is None and not (getattr(r, 'exits', None) or []):
                    C.bad('refused', csn, loc(two), '%s accepts extents 3 and 2 along dimension %d of %d' % (csn, i, nd))
                else:
                    C.undecided('refused', csn)


def conversions(R, top):
    C, F = R.C, R.F
    s2l = [f for f in F.named('brille::sub2lin') if f.get('body') is not None and not f.get('dep')]
    l2s = [f for f in F.named('brille::lin2sub') if f.get('body') is not None and not f.get('dep')]
    for f in s2l:
        ps = [core.bare(p['t']) for p in f['params']]
        dims = (2,) if any('array' in p for p in ps) else (1, 2, 3, 4)
        for nd in dims:
            I = [P(100 + i, 'i%d' % i) for i in range(nd)]
            K = [P(200 + i, 'k%d' % i) for i in range(nd)]
            try:
                E, r = R.ev(f, I + [LST(K)] if len(ps) == 3 else [LST(I), LST(K)])
            except (summ.Undecided, RecursionError) as e:
                C.undecided('linear', 'sub2lin: %s' % e); continue
            want = T.ZERO
            for a, b in zip(I, K):
                want = add(want, mul(a, b))
            R.decide('linear', 'sub2lin', f, r.value, want, 'sub2lin(%s) in %d dimensions' % (', '.join(ps), nd))
    for f in l2s:
        ps = [core.bare(p['t']) for p in f['params']]
        dims = (2,) if 'array' in ps[1] else top
        for nd in dims:
            S = [P(100 + i, 's%d' % i) for i in range(nd)]
            D = [P(200 + i, 'more%d' % i) for i in range(nd)]
            ext = [add(add(S[i], T.ONE), D[i]) for i in range(nd)]
            for order in ('row', 'column'):
                K = [None] * nd
                seq = range(nd - 1, -1, -1) if order == 'row' else range(nd)
                p = T.ONE
                for i in seq:
                    K[i] = p
                    p = mul(p, ext[i])
                lin = T.ZERO
                for a, b in zip(S, K):
                    lin = add(lin, mul(a, b))
                if nd > 1:      # the strides alone tell the order only when the first and last differ
                    assume = cmp('<', K[0], K[-1]) if order == 'column' else cmp('<', K[-1], K[0])
                else:
                    assume = None
                try:
                    E, r = R.ev(f, [lin, LST(K)])
                    v = r.value
                    if v is not None and v[0] in ('var',):
                        v = E.read(v, r.final)
                    for i in range(nd):
                        got = objval(v, i)
                        R.decide('inverse', 'lin2sub|' + order, f, got, S[i], 'lin2sub(sub2lin(s, strides), strides)[%d], %d dimensions, %s order' % (i, nd, order), assume=assume)
                except (summ.Undecided, RecursionError) as e:
                    C.undecided('inverse', 'lin2sub: %s' % e)
    for f in [f for f in F.named('brille::is_fixed') if f.get('body') is not None and not f.get('dep')]:
        a, b = P(0, 'i'), P(1, 'n')
        ty = {a: core.bare(f['params'][0]['t']), b: core.bare(f['params'][1]['t'])}
        E, r = R.ev(f, [a, b])
        want = AND(cmp('<=', T.ZERO, a), cmp('<', a, b))
        neg = lambda v, t: ((tval.h(t, v.seed) >> 3) % 7 - (0 if 'unsigned' in ty.get(t, '') else 3)) if t[0] == 'param' else None
        res, why = tval.compare(r.value, want, ty, seeds=120, leaf=neg)
        what = 'is_fixed(%s, %s)' % tuple(ty.values())
        if res == 'differ':
            C.bad('held', 'is_fixed', loc(f), '%s is not "a valid subscript" (%s)' % (what, why))
        elif res == 'same':
            C.instance('held', what + ': ' + why)
        else:
            C.undecided('held', what + ': ' + why)


def accessors(R):
    C, F = R.C, R.F
    for csn, dims in (('brille::Array', (1, 2, 3)), ('brille::Array2', (2,))):
        for f in members(F, csn):
            if f['fn'] not in ('val', 'ptr', 'operator[]', 'data', 's2l_d', 'ij2l_d', 'l2l_d') or f.get('ctor'):
                continue
            if f.get('csn') != csn or not f['cls'].endswith('<double>'):
                continue
            ps = [core.bare(p['t']) for p in f['params']]
            for nd in dims:
                K = [P(200 + i, 'k%d' % i) for i in range(nd)]
                N = [P(300 + i, 'n%d' % i) for i in range(nd)]
                I = [P(400 + i, 'i%d' % i) for i in range(nd)]
                scal = [p for p in ps if 'std::' not in p]
                if scal and len(scal) != len(ps):
                    continue
                if len(scal) not in (0, 1, nd):
                    continue
                st = summ.State()
                st.st[('fld', THIS, '_stride')] = LST(K)
                st.st[('fld', THIS, '_shape')] = LST(N)
                args = list(I[:len(ps)]) if scal else [LST(I)] * len(ps)
                if not scal and len(ps) > 1:
                    continue
                try:
                    E, r = R.ev(f, args, state=st)
                except (summ.Undecided, RecursionError) as e:
                    C.undecided('address', '%s::%s: %s' % (csn, f['fn'], e)); continue
                v = r.value
                what = '%s::%s(%s) in %d dimensions' % (csn, f['fn'], ', '.join(ps), nd)
                if v is None or v[0] == 'throw':
                    if v is not None and len(ps) == nd:
                        C.bad('address', '%s::%s|throws' % (csn, f['fn']), loc(f), what + ' always throws')
                    continue
                data, shift = ('fld', THIS, '_data'), ('fld', THIS, '_shift')
                if v[0] == 'at' and v[1] == data:
                    idx = v[2]
                elif v[0] == 'ptr' and v[1] == data:
                    idx = v[2]
                elif f['fn'].endswith('l_d'):
                    idx = v
                elif T.contains(v, data) and v[0] in ('poly', 'fld') and data not in (T.sub(v, data), ) and not T.contains(T.sub(v, data), data):
                    idx = T.sub(v, data)
                elif T.has(v, lambda x: x[0] == 'opaque'):
                    C.undecided('address', what + ': not reduced'); continue
                else:
                    C.bad('address', '%s::%s|data' % (csn, f['fn']), loc(f), '%s does not address the array\'s own storage: %s' % (what, T.show(v)[:120]))
                    continue
                if f['fn'] == 'data' and not ps:
                    want = T.ZERO
                elif f['fn'] in ('operator[]', 'data', 'l2l_d') and len(scal) == 1:
                    want = add(shift, I[0])          # a linear position
                else:
                    want = shift
                    for a, b in zip(I if ps else [], K):
                        if len(scal) == 1 and a != I[0]:
                            continue
                        want = add(want, mul(a, b))
                R.decide('address', '%s::%s(%s)' % (csn, f['fn'], ','.join(ps)), f, idx, want, what)
        for f in members(F, csn):
            if not f['cls'].endswith('<double>'):
                continue
            if f['fn'] in ('set_stride', 'calculate_stride'):
                for nd in dims:
                    N = [P(300 + i, 'n%d' % i) for i in range(nd)]
                    for order in ('row', 'column') if f['fn'] == 'calculate_stride' and nd > 1 else ('row',):
                        st = summ.State()
                        if f['fn'] == 'calculate_stride':
                            k = [num(nd - i) for i in range(nd)] if order == 'row' else [num(1 + i) for i in range(nd)]
                            st.st[('fld', THIS, '_stride')] = LST(k)
                        else:
                            st.st[('fld', THIS, '_shape')] = LST(N)
                        try:
                            E, r = R.ev(f, [LST(N)] if f['params'] else [], state=st)
                        except (summ.Undecided, RecursionError) as e:
                            C.undecided('stride', '%s: %s' % (csn, e)); continue
                        for i in range(nd):
                            got = objval(r.value, i) if f['fn'] == 'calculate_stride' else E.read(('at', ('fld', THIS, '_stride'), num(i)), r.final)
                            want = prod(N[i + 1:]) if order == 'row' else prod(N[:i])
                            if f['fn'] == 'set_stride' and got is not None and T.has(got, lambda x: x[0] in ('opaque', 'call', 'eff')):
                                C.undecided('stride', '%s::set_stride in %d dimensions' % (csn, nd)); continue
                            R.decide('stride', '%s::%s' % (csn, f['fn']), f, got, want, '%s::%s: stride %d of %d in %s order' % (csn, f['fn'], i, nd, order))


def fresh_blocks(R):
    """Cells of a block allocated for a shape are addressed with strides computed for that shape, never with the strides of the array it is copied from."""
    C, F = R.C, R.F
    for f in F.funcs.values():
        if f.get('body') is None or f.get('csn') not in ('brille::Array', 'brille::Array2') or f.get('dep') or f.get('inst') is False:
            continue
        blocks = {}
        for n in core.walk(f['body']):
            if n.get('k') == 'var' and n.get('init') is not None and any(m.get('k') == 'new' for m in core.walk(n['init'])):
                blocks[n['d']] = n
        if not blocks:
            continue
        for blk in core.walk(f['body']):
            if blk.get('k') != 'idx':
                continue
            b = blk.get('b') or blk.get('e') or (blk.get('c') or [None])[0]
            if b is None:
                continue
            refs = [m for m in core.walk(b) if m.get('k') == 'ref' and m.get('d') in blocks]
            if not refs:
                continue
            i = blk.get('i') or (blk.get('c') or [None, None])[1]
            if i is None:
                continue
            for c in core.walk(i):
                if c.get('k') == 'call' and c.get('fn') == 'sub2lin' and len(c['args']) == 2:
                    a = c['args'][1]
                    own = [m for m in core.walk(a) if m.get('k') == 'mem' and m.get('n') == '_stride']
                    what = '%s:%s' % (f['q'], c.get('l', f['l']))
                    if own and not assigned_before(f, own[0], c):
                        C.bad('fresh', f['csn'] + '::' + f['fn'], loc(f), 'the new block "%s" is addressed with the strides of the array it is copied from' % blocks[refs[0]['d']]['n'])
                    else:
                        C.instance('fresh', what + ' uses strides computed for the new block')


def assigned_before(f, mem, c):
    return False


def run(tier):
    C = core.Check('P18', tier, RULE)
    F = C.facts(['d_array.cpp'])
    R = Run(C, F)
    iterator(R, 'brille::SubIt', (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3))
    iterator(R, 'brille::SubIt2', (2,))
    broadcast(R, 'brille::BroadcastIt', (1, 2, 3))
    broadcast(R, 'brille::BroadcastIt2', (2,))
    conversions(R, (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3))
    accessors(R)
    fresh_blocks(R)
    for r, n in (('successor', 20), ('begin', 10), ('end', 10), ('linear', 4), ('inverse', 6), ('address', 20), ('stride', 4)):
        C.floor(r, n)
    C.assumptions += ['extents and subscripts do not overflow the index type', 'strides (1,..,1) of a column-ordered array read as row order',
                      'a linear position of a view that is not contiguous is a storage offset']
    return C.finish()
