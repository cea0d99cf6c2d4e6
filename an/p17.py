"""P17: the checked integer conversions return their argument or throw (value graphs with exact casts, decided at every boundary of the types involved)."""
import core
import summ
import terms as T
from core import loc

RULE = ('s2u and u2s are summarised for every pair of built-in integer types with every cast kept; at every point where the graph or the types can change behaviour (powers of two and their '
        'neighbours, each constant of the graph and its images under wrapping) the function must return its argument when the target can hold it and throw otherwise.')
W = {'signed char': (8, 1), 'char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1),
     'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}


def rng(t):
    b, s = W[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def wrap(t, v):
    lo, hi = rng(t)
    return (v - lo) % (hi - lo + 1) + lo


class No(Exception):
    pass


def integer(v):
    if v == 'throw' or v != int(v):
        raise No('not an integer')
    return int(v)


def val(t, u):
    k = t[0]
    if k == 'param':
        return u
    if k == 'bool':
        return t[1]
    if k == 'wrap':
        if t[1] == 'bool':
            return bool(val(t[2], u))
        if t[1] not in W:
            raise No(t[1])
        return wrap(t[1], val(t[2], u))
    if k == 'poly':
        r = 0
        for m, c in t[1]:
            p = c
            for a, e in m:
                p *= val(a, u) ** e
            r += p
        return r
    if k == 'cmp':
        a, b = val(t[2], u), val(t[3], u)
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[t[1]]
    if k == 'not':
        return not val(t[1], u)
    if k == 'and':
        return all(val(x, u) for x in t[1:])
    if k == 'or':
        return any(val(x, u) for x in t[1:])
    if k == 'ite':
        return val(t[2], u) if val(t[1], u) else val(t[3], u)
    if k == 'throw':
        return 'throw'
    if k == 'bit':
        a = integer(val(t[2], u))
        if t[1] == '~':
            return ~a
        b = integer(val(t[3], u))
        if t[1] in ('<<', '>>') and not 0 <= b < 64:
            raise No('shift')
        return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[t[1]]()
    if k == 'call' and t[1] in ('idiv', 'mod'):
        a, b = integer(val(t[2], u)), integer(val(t[3], u))
        if b == 0:
            raise No('zero')
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if t[1] == 'idiv' else a - q * b
    raise No(k)


def run(tier):
    C = core.Check('P17', tier, RULE)
    F = C.facts(['d_util.cpp'])
    # the argument is held in a variable of its own type, so conversions which cannot change it keep its value
    for name, src in (('u2s', 1), ('s2u', 1)):
        for f in F.named('brille::utils::' + name):
            if f.get('dep') or f.get('body') is None or len(f['params']) != 1:
                continue
            to, fr = core.bare(f['rt']), core.bare(f['params'][0]['t'])
            what = '%s from %s to %s' % (name, fr, to)
            if to not in W or fr not in W:
                C.undecided('exact', what); continue
            E = summ.Eval(F)
            E.exact_int = True
            try:
                g = E.function(f, [('param', 0, 'u')]).value
            except (summ.Undecided, RecursionError) as e:
                C.undecided('exact', '%s: %s' % (what, e)); continue
            lo, hi = rng(fr)
            tl, th = rng(to)
            pts = {0}
            for k in range(65):
                for d in (-1, 0, 1):
                    pts |= {(1 << k) + d, -(1 << k) + d}
            for x in T.subterms(g):
                c = T.const(x) if x[0] == 'poly' else None
                if c is not None:
                    for w in (0, 8, 16, 32, 64):
                        for m in (0, 1, 2, 3):
                            for d in (-1, 0, 1):
                                pts |= {int(c) + m * ((1 << w) if w else 0) + d}
            for w in (8, 16, 32):
                pts |= {(1 << w) + 44, 3 * (1 << w) + 7, (1 << w) + (1 << (w - 1)), -(1 << w) + 5, -3 * (1 << w) + 5}
            pts = sorted(p for p in pts if lo <= p <= hi)
            bad = None
            try:
                for p in pts:
                    v = val(g, p)
                    ok = tl <= p <= th
                    if v == 'throw' and ok:
                        bad = 'it refuses %d, which fits' % p
                    elif v != 'throw' and not ok:
                        bad = 'it accepts %d, which does not fit' % p
                    elif v != 'throw' and v != p:
                        bad = '%d becomes %s' % (p, v)
                    if bad:
                        break
            except (No, OverflowError) as e:
                C.undecided('exact', '%s: %s' % (what, e)); continue
            if bad:
                C.bad('exact', name, loc(f), '%s: %s' % (what, bad))
            else:
                C.instance('exact', '%s: right at %d boundary points' % (what, len(pts)))
            # only an overflow error reports the refusal
            th_ = [n for n in core.walk(f['body']) if n.get('k') == 'throw' and n.get('e') is not None]
            for n in th_:
                ts = core.bare(n['e'].get('t', ''))
                if 'overflow_error' in ts:
                    C.instance('error', what)
                else:
                    C.bad('error', name, loc(f), '%s reports the refusal with %s instead of an overflow error' % (what, ts))
    C.floor('exact', 20)
    C.assumptions += ['the conversion functions are branches on comparisons with constants, so behaviour changes only at the points tried']
    return C.finish()
