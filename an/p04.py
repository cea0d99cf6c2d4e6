"""P04: approximate equality is symmetric, reflexive and monotone in its tolerances, and the array forms agree with the scalar form."""
import re
import core
import summ
import terms as T
import tval
from core import loc
from terms import num, AND

RULE = ('The value graphs of approx_float::scalar<T,R> and of every array/vector/matrix/container form are extracted; the graph of scalar<T,R>(a,b) and of '
        'scalar<R,T>(b,a) must denote the same predicate, scalar(a,a) must be true, the predicate must not go from true to false when a tolerance grows, and each array form '
        'must be the conjunction of the scalar predicate over its elements with the same tolerances (unrolled at several sizes).')
AF = 'brille::approx_float::'


def near(seed, ty):
    """leaves: values that coincide, nearly coincide at several scales, or differ"""
    def leaf(v, t):
        b = t
        i = 0
        while b[0] in ('at', 'ptr'):
            c = T.const(b[2])
            i += int(c) if c is not None else 0
            b = b[1]
        if b[0] != 'param':
            return None
        n = b[2]
        isi = 'double' not in ty.get(b, 'double') and 'float' not in ty.get(b, 'double')
        if b == ('param', 0, 'Ttol'):
            isi = False
        if n in ('Ttol', 'Rtol'):
            if isi:
                return v.seed % 3 - 1 if v.seed % 3 else 0
            return [0.0, 0.0, 1e-9, 1e-4, 0.05, 0.5][tval.h('tol', v.seed) % 6]     # one tolerance for both sides
        if n == 'tol':
            return 1 + v.seed % 5
        if n in ('a', 'b'):
            x = tval.h('base', i, v.seed)
            base = [0.0, 1.0, -1.0, 3.0, 7.0, 1e-13, 2.5e3, -4.0, 1e-3, 2.0, 4e-15, -1e-14][x % 12]
            if isi:
                base = float(int(base))
            if n == 'b':
                y = tval.h('off', i, v.seed, 1)
                d = [0.0, 0.0, 0.0, 1e-15, -4e-15, 1e-13, 3e-12, 1e-9, -1e-6, 1e-3, 1.0, 0.2, -1e-11][y % 13] if v.seed % 4 else [0.0, 1e-15, 0.0, 1e-14][y % 4]
                if isi:
                    d = float(int(d))
                if v.seed % 2 and not isi:
                    # close to where the tolerances put the boundary, on either side
                    tl = leaf(v, ('param', 0, 'Ttol')) if any('double' in x for x in ty.values()) else 0.0
                    eps = 2.0 ** -52 * 1e4 * (1 + v.seed % 5)
                    d = (max(tl, 5e-15) + max(tl, eps) * 2 * abs(base)) * [0.3, 0.45, 0.6, 0.8, 0.95, 1.1, 1.5, 2.1, 3.5, 0.1][y % 10] * (1 if (y >> 5) % 2 else -1)
                    base = base + d
                else:
                    base = base + d * (abs(base) if y % 2 else 1)
            return int(base) if isi else base
        return None
    return leaf


def mkargs(fn, names):
    return [('param', 100 + i, n) for i, n in enumerate(names)]


def typed(fn, args, shared):
    ty = {}
    for p, a in zip(fn['params'], args):
        if a is not None and a[0] == 'param':
            ty[a] = p['t']
    return ty


def unresolved(t):
    return T.has(t, lambda x: x[0] in ('opaque', 'eff', 'uninit', 'unset', 'memory'))


def run(tier):
    C = core.Check('P04', tier, RULE)
    F = C.facts(['d_util.cpp'])
    seeds = 2000 if tier == 'thorough' else 400
    sc = {}
    for f in F.named(AF + 'scalar'):
        t = tuple(f.get('targs') or [])[:2]
        if len(t) == 2 and len(f['params']) == 5:
            sc[t] = f
    A, B, TT, RT, K = (('param', 100 + i, n) for i, n in enumerate(('a', 'b', 'Ttol', 'Rtol', 'tol')))

    def summ_of(fn, args):
        E = summ.Eval(F, unroll=16, inline_depth=8, budget=200000)
        try:
            r = E.function(fn, args)
            return r.value
        except (summ.Undecided, RecursionError):
            return None

    graphs = {}
    for (t, r), f in sc.items():
        g = summ_of(f, [A, B, TT, RT, K])
        if g is None or unresolved(g):
            C.undecided('scalar', 'scalar<%s,%s> not reduced to a closed predicate' % (t, r))
            continue
        graphs[(t, r)] = g

    def tyof(t, r):
        return {A: t, B: r, TT: t, RT: r, K: 'int'}

    def vals(g, ty, n, fixed=None, seedoff=0):
        out = []
        for s in range(n):
            v = tval.Val(s + seedoff, ty, fixed, near(s, ty))
            try:
                out.append((s, v, v(g)))
            except tval.NoValue:
                out.append((s, v, None))
        return out

    for (t, r), g in graphs.items():
        f = sc[(t, r)]
        ty = tyof(t, r)
        who = 'scalar<%s,%s>' % (t, r)
        # symmetry
        if (r, t) in graphs:
            h = T.subst(graphs[(r, t)], {A: B, B: A, TT: RT, RT: TT})
            res, why = tval.compare(g, h, ty, seeds=seeds, leaf=near(0, ty))
            if res == 'differ':
                C.bad('symmetric', '%s%s,%s' % (AF, *sorted((t, r))), loc(f), '%s(a,b) and scalar<%s,%s>(b,a) disagree (%s)' % (who, r, t, why))
            elif res == 'same':
                C.instance('symmetric', '%s(a,b) = scalar<%s,%s>(b,a): %s' % (who, r, t, why))
            else:
                C.undecided('symmetric', '%s: %s' % (who, why))
        # reflexivity
        if t == r:
            ga = T.subst(g, {B: A})
            if ga == T.TRUE:
                C.instance('reflexive', who + ': normal form true')
            else:
                bad = [s for s, v, x in vals(ga, ty, seeds) if x is False or x == 0 and x is not None]
                if bad:
                    C.bad('reflexive', AF + who, loc(f), '%s(a,a) is not always true (%d of %d valuations)' % (who, len(bad), seeds))
                else:
                    C.instance('reflexive', '%s(a,a): true at %d valuations' % (who, seeds))
        # monotone in each tolerance, and the tolerances matter at all
        for P in (TT, RT, K):
            worse = 0
            for s in range(seeds):
                v = tval.Val(s, ty, None, near(s, ty))
                try:
                    x0 = v(g)
                    p0 = v(P)
                    for big in (p0 * 3 + 1e-8, p0 + 1, p0 * 1000 + 0.01) if ty[P] in ('double', 'float') else (p0 + 1, p0 + 40):
                        v2 = tval.Val(s, ty, {P: big}, near(s, ty))
                        if x0 and not v2(g):
                            worse += 1
                except tval.NoValue:
                    pass
            if worse:
                C.bad('monotone', '%s%s|%s' % (AF, who, P[2]), loc(f), '%s: growing %s turns equality into inequality (%d valuations)' % (who, P[2], worse))
            else:
                C.instance('monotone', '%s in %s' % (who, P[2]))
        # clearly different numbers are different, exactly equal ones equal
        wrong = 0
        for s in range(60):
            a, b = 1.0 + s, (1.0 + s) * 1.5 + 1
            if t not in ('double', 'float'):
                a = int(a)
            if r not in ('double', 'float'):
                b = int(b)
            v = tval.Val(s, ty, {A: a, B: b, TT: 0, RT: 0, K: 1})
            try:
                if v(g):
                    wrong += 1
            except tval.NoValue:
                pass
        if wrong:
            C.bad('discriminates', AF + who, loc(f), '%s calls clearly different numbers equal with the default tolerances' % who)
        else:
            C.instance('discriminates', who)

    # array forms
    def array_forms():
        for nm in ('array', 'matrix', 'vector', 'equal'):
            for f in F.named(AF + nm):
                ps = f['params']
                tg = [str(x).rstrip('UL') for x in f.get('targs') or []]
                if len(tg) < 2:
                    continue
                key = (tg[0], tg[1])
                ks = [int(x) for x in tg[2:] if x.isdigit()]
                nptr = [i for i, p in enumerate(ps) if p['t'].endswith('*')]
                if nm == 'equal':
                    cont = 'array' if 'std::array' in ps[0]['t'] else 'vector'
                    if cont == 'array':
                        n = ks[0]
                        yield f, key, [A, B, TT, RT, K], n, 'equal(array<%d>)' % n
                    else:
                        for n in (0, 1, 2, 3):
                            yield f, key, [('list',) + tuple(('at', A, num(i)) for i in range(n)), ('list',) + tuple(('at', B, num(i)) for i in range(n)), TT, RT, K], n, 'equal(vector of %d)' % n
                        yield f, key, [('list', ('at', A, num(0))), ('list', ('at', B, num(0)), ('at', B, num(1))), TT, RT, K], None, 'equal(vectors of 1 and 2)'
                    continue
                lead = nptr[0] if nptr else 0
                if lead == 0:
                    n = {'array': lambda: ks[0] * ks[1], 'matrix': lambda: ks[0] ** 2, 'vector': lambda: ks[0]}[nm]() if ks else None
                    if n is None:
                        continue
                    yield f, key, [None, None, TT, RT, K], n, '%s<%s>' % (nm, ','.join(map(str, ks)))
                else:
                    for s in ([(1, 1), (2, 2), (1, 3), (3, 2), (0, 1)] if lead == 2 else [(0,), (1,), (2,), (3,)]):
                        n = s[0] * s[1] if lead == 2 else (s[0] ** 2 if nm == 'matrix' else s[0])
                        yield f, key, [num(x) for x in s] + [None, None, TT, RT, K], n, '%s(%s)' % (nm, 'x'.join(map(str, s)))

    for f, key, args, n, what in array_forms():
        g = graphs.get(key)
        if g is None:
            C.undecided('elementwise', '%s: no scalar predicate for %s' % (what, key))
            continue
        names = [p['n'] for p in f['params']]
        E_args = [(('param', 100, 'a') if i == names.index('a') else ('param', 101, 'b') if i == names.index('b') else None) if x is None and names[i] in ('a', 'b') else x
                  for i, x in enumerate(args)] if 'a' in names and 'b' in names else args
        # pointer parameters are bound as pointers to the symbolic element arrays
        E_args = [('ptr', x, T.ZERO) if x in (A, B) and f['params'][i]['t'].endswith('*') else x for i, x in enumerate(E_args)]
        got = summ_of(f, E_args)
        who = '%s<%s> %s' % (f['fn'], ','.join(key), what)
        if got is None or unresolved(got):
            C.undecided('elementwise', who + ' not reduced')
            continue
        want = T.FALSE if n is None else AND(*[T.subst(g, {A: ('at', A, num(i)), B: ('at', B, num(i))}) for i in range(n)])
        ty = tyof(*key)
        res, why = tval.compare(got, want, ty, seeds=seeds, leaf=near(0, ty))
        if res == 'differ':
            C.bad('elementwise', '%s%s<%s>' % (AF, f['fn'], ','.join(key)), loc(f), '%s is not the conjunction of the scalar comparison of its elements (%s)' % (who, why))
        elif res == 'same':
            C.instance('elementwise', '%s: %s' % (who, why))
        else:
            C.undecided('elementwise', '%s: %s' % (who, why))
    # callers inside the library hand both tolerances through
    C.floor('symmetric', 2)
    C.floor('elementwise', 8)
    C.assumptions += ['comparison of values of the same floating-point type, or of a floating-point and an integer type (float with double is not used)',
                      'finite values; array forms at the listed sizes']
    return C.finish()
