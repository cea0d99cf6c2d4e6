"""Identity testing of value graphs: two terms with different normal forms are separated (or not) by valuing their symbolic
leaves at generic points of several kinds (reals, small integers, values with many coincidences). Only terms are evaluated,
never the program; an uninterpreted operation is valued by a hash of its arguments."""
import cmath
import hashlib
import math
from fractions import Fraction
import terms as T


class NoValue(Exception):
    pass


def h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')


LIM = {'epsilon:double': 2.0**-52, 'epsilon:float': 2.0**-23, 'max:double': 1.7976931348623157e308, 'min:double': 2.2250738585072014e-308, 'infinity:double': math.inf,
       'max:int': 2**31 - 1, 'min:int': -2**31, 'max:unsigned int': 2**32 - 1, 'max:long': 2**63 - 1, 'max:unsigned long': 2**64 - 1, 'min:long': -2**63,
       'max:long long': 2**63 - 1, 'min:long long': -2**63, 'max:unsigned long long': 2**64 - 1, 'max:unsigned char': 255, 'max:signed char': 127, 'min:signed char': -128,
       'max:short': 32767, 'max:unsigned short': 65535}


class Val:
    def __init__(self, seed, ty=None, fixed=None, leaf=None):
        self.seed, self.ty, self.fixed, self.leaf = seed, ty, fixed or {}, leaf
        self.memo = {}
        self.env = {}

    def base(self, k, cplx, integer):
        m = self.seed % 4
        x = h(k, self.seed)
        if integer:
            return x % 9 - 3 if m < 3 else x % 100
        if m == 0:
            r = lambda y: (y % 1000003) / 1000003.0 * 2.6 - 1.3
        elif m == 1:
            r = lambda y: (y % 1000003) / 1000003.0 * 5 + 0.1
        elif m == 2:
            r = lambda y: float(y % 5 - 2)
        else:
            r = lambda y: (y % 1000003) / 1000003.0 * 40 - 20
        if cplx:
            return complex(r(x), r(x >> 20))
        return r(x)

    def kind(self, t):
        """(complex?, integer?) of a leaf"""
        b = t
        while b[0] in ('at', 'fld', 'ptr', 'sub'):
            b = b[1]
        ty = (self.ty or {}).get(b, '')
        c = 'complex' in ty
        i = not c and not any(x in ty for x in ('double', 'float')) and any(x in ty for x in ('int', 'long', 'char', 'short', 'size_t', 'bool'))
        return c, i

    def __call__(self, t):
        if self.env:
            return self.ev(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def lk(self, t):
        """hashable key of a location with its index values"""
        if t[0] in ('at',):
            return ('at', self.lk(t[1]), self.rnd(self(t[2])))
        if t[0] in ('fld',):
            return ('fld', self.lk(t[1]), t[2])
        if t[0] == 'ptr':
            return self.lk(t[1]) if T.const(t[2]) == 0 else ('ptr', self.lk(t[1]), self.rnd(self(t[2])))
        return t

    def rnd(self, v):
        if isinstance(v, (int, Fraction)):
            return float(v)
        if isinstance(v, complex):
            return (self.rnd(v.real), self.rnd(v.imag))
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return str(v)
            return float('%.7g' % v) + 0.0
        if isinstance(v, tuple):
            return tuple(self.rnd(x) for x in v)
        return v

    def ev(self, t):
        f = self.fixed.get(t)
        if f is not None:
            return f
        k = t[0]
        if self.leaf:
            r = self.leaf(self, t)
            if r is not None:
                return r
        if k == 'poly':
            r = 0
            for m, c in t[1]:
                p = int(c) if c.denominator == 1 else float(c)
                for at, e in m:
                    x = self(at)
                    if isinstance(x, (str, tuple)):
                        x = self.base(('w', x), False, False)
                    p = p * x ** e
                r = r + p
            return r
        if k == 'bv':
            if t in self.env:
                return self.env[t]
            raise NoValue('free bound variable')
        if k in ('param', 'fld', 'at', 'var', 'this', 'size', 'field'):
            c, i = self.kind(t)
            return self.base(self.lk(t), c, i)
        if k == 'I':
            return 1j
        if k == 'bool':
            return t[1]
        if k == 'inv':
            x = self(t[1])
            if x == 0:
                raise NoValue('division by zero')
            return 1 / x
        if k == 'cmp':
            a, b = self(t[2]), self(t[3])
            if t[1] == 'eq':
                return self.rnd(a) == self.rnd(b)
            if t[1] == 'ne':
                return self.rnd(a) != self.rnd(b)
            if isinstance(a, (complex, str, tuple)) or isinstance(b, (complex, str, tuple)):
                raise NoValue('order')
            return a < b if t[1] == 'lt' else a <= b
        if k == 'and':
            return all(self(x) for x in t[1:])
        if k == 'or':
            return any(self(x) for x in t[1:])
        if k == 'not':
            return not self(t[1])
        if k == 'ite':
            return self(t[2]) if self(t[1]) else self(t[3])
        if k in T.FOLDS:
            lo, hi = self(t[2]), self(t[3])
            if hi - lo > 60:
                raise NoValue('long fold')
            out = []
            old = self.env
            for x in range(int(lo), int(math.ceil(hi))):
                self.env = dict(old); self.env[t[1]] = x
                out.append(self(t[4]))
            self.env = old
            if k == 'sum':
                return sum(out)
            if k == 'prod':
                return math.prod(out)
            if k == 'exists':
                return any(out)
            if k == 'forall':
                return all(out)
            if not out:
                raise NoValue('empty')
            return {'maxf': max, 'minf': min, 'lastf': lambda o: o[-1]}[k](out)
        if k == 'trunc':
            x = self(t[1])
            return int(x)
        if k == 'enum' or k == 'str':
            return t
        if k == 'tuple' or k == 'list':
            return tuple(self(x) for x in t[1:])
        if k == 'opaque' or k in ('uninit', 'eff'):
            raise NoValue('opaque')
        if k == 'call':
            return self.callv(t[1], [self(x) if isinstance(x, tuple) else x for x in t[2:]])
        if k == 'bit':
            if t[1] == '~':
                return ~int(self(t[2]))
            a, b = int(self(t[2])), int(self(t[3]))
            return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << min(b, 99), '>>': lambda: a >> b}[t[1]]()
        if k == 'throw':
            return ('throw',)
        # uninterpreted
        return self.base(('u', k) + tuple(self.rnd(self(x)) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:]), False, False)

    def callv(self, f, a):
        if f.startswith('limit:'):
            if f[6:] in LIM:
                return LIM[f[6:]]
            raise NoValue(f)
        g = f[5:] if f.startswith('std::') else f
        try:
            if len(a) == 1:
                x = a[0]
                if isinstance(x, (str, tuple)):
                    pass
                elif g == 'abs':
                    return abs(x)
                elif g == 'norm':
                    return abs(x) ** 2
                elif g == 'conj':
                    return x.conjugate() if isinstance(x, complex) else x
                elif g == 'real':
                    return x.real
                elif g == 'imag':
                    return x.imag if isinstance(x, complex) else 0
                elif g == 'arg':
                    return cmath.phase(x)
                elif g in ('sqrt', 'exp', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'tanh', 'cosh', 'sinh', 'log'):
                    if isinstance(x, complex):
                        return getattr(cmath, g)(x)
                    return getattr(math, g)(x)
                elif g in ('floor', 'ceil', 'trunc'):
                    return float(getattr(math, g)(x))
                elif g in ('round',):
                    return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
                elif g == 'signbit':
                    return math.copysign(1, x) < 0
                elif g == 'isnan':
                    return x != x
                elif g == 'polar':
                    return cmath.rect(x, 0)
            if len(a) == 2 and not any(isinstance(x, (str, tuple)) for x in a):
                x, y = a
                if g in ('max', 'fmax'):
                    return max(x, y)
                if g in ('min', 'fmin'):
                    return min(x, y)
                if g == 'pow':
                    return x ** y
                if g == 'atan2':
                    return math.atan2(x, y)
                if g == 'polar':
                    return cmath.rect(x, y)
                if g == 'hypot':
                    return math.hypot(x, y)
                if g == 'copysign':
                    return math.copysign(x, y)
                if g == 'mul':
                    return x * y
                if g == 'idiv':
                    if y == 0:
                        raise NoValue('division by zero')
                    return int(Fraction(int(x), int(y)))
                if g == 'remquo':
                    return math.remainder(x, y)
                if g == 'quo':
                    return round((x - math.remainder(x, y)) / y)
                if g in ('mod', 'fmod'):
                    return math.fmod(x, y)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
            raise NoValue(str(e))
        return self.base(('f', f) + tuple(self.rnd(x) for x in a), False, False)


def close(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, str) or isinstance(b, str):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(close(x, y) for x, y in zip(a, b))
        return a == b
    if a != a or b != b:
        return (a != a) == (b != b)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if abs(a) == math.inf or abs(b) == math.inf:
        return a == b
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def compare(a, b, ty=None, seeds=48, fixed=None, leaf=None, assume=None):
    """'same' (equal normal forms, or equal at every generic point tried), 'differ', or 'unknown'."""
    if a == b:
        return 'same', 'normal form'
    if T.canon(a) == T.canon(b):
        return 'same', 'normal form'
    n = d = 0
    # branches on a leaf having a particular value (or two leaves coinciding) are visited deliberately
    LEAF = ('param', 'at', 'fld')
    special = []
    for t in (a, b):
        for x in T.subterms(t):
            if x[0] == 'cmp':
                for l, r in ((x[2], x[3]), (x[3], x[2])):
                    if l[0] in LEAF and (T.const(r) is not None or r[0] in LEAF) and (l, r) not in special and len(special) < 40:
                        special.append((l, r))
    trials = [(s, None) for s in range(seeds)] + [(s, sp) for sp in special for s in (0, 1)]
    for s, sp in trials:
        v = Val(s, ty, fixed, leaf)
        if sp is not None:
            r = T.const(sp[1])
            try:
                v.fixed = dict(v.fixed)
                v.fixed[sp[0]] = (int(r) if r.denominator == 1 and v.kind(sp[0])[1] else float(r)) if r is not None else v(sp[1])
            except NoValue:
                continue
            v.memo = {}
        try:
            if assume is not None and not v(assume):
                continue
            x = v(b)
        except NoValue:
            continue
        except RecursionError:
            return 'unknown', 'depth'
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
        try:
            y = v(a)
        except NoValue as e:
            if str(e) == 'opaque':
                return 'unknown', 'opaque'
            continue
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
        n += 1
        if not close(x, y):
            d += 1
    if d >= 1:
        return 'differ', '%d of %d points' % (d, n)
    if n >= 8:
        return 'same', 'identity test, %d points' % n
    return 'unknown', 'only %d points' % n
