"""Value-graph summaries of functions: every expression is numbered by the value it denotes (polynomial normal form over
opaque atoms), branches become gated values, counted loops become folds / element-wise updates. Whatever does not fit one of
the recognised loop shapes becomes an opaque value and the caller reports the construct as undecided."""
from fractions import Fraction
import re
from core import strip_t, bare, is_nonconst_ref, is_nonconst_ptr

# ---------------------------------------------------------------- values
# ('poly', ((monomial, coef), ...)) with monomial = ((atom, power), ...), or an atom:
# ('param', i, name) ('fld', base, name) ('at', base, idxpoly) ('bv', id) ('call', name, args...) ('ite', c, a, b)
# ('cmp', op, a, b) ('and', ...) ('or', ...) ('not', x) ('sum'|'prod'|'max'..., bv, lo, hi, body) ('opaque', n)
# ('inv', x) ('bit', op, a, b) ('ptr', base, off) ('enum', q) ('str', s) ('trunc', t, x)
_n = [0]


def fresh():
    _n[0] += 1
    return _n[0]


def opaque(why=''):
    return ('opaque', fresh(), why)


_key = {}


def key(t):
    """A total order on terms (tuples may mix types)."""
    r = _key.get(t)
    if r is None:
        r = _key[t] = repr(t)
    return r


def mono_key(m):
    return key(m)


def num(x):
    x = Fraction(x)
    return ('poly', (((), x),)) if x else ('poly', ())


ZERO, ONE = num(0), num(1)
TRUE, FALSE = ('bool', True), ('bool', False)


def topoly(t):
    if t[0] == 'poly':
        return dict(t[1])
    if t == TRUE:
        return {(): Fraction(1)}
    if t == FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(d.items(), key=lambda mc: mono_key(mc[0]))))


def const(t):
    """The Fraction a term denotes, or None."""
    if t[0] == 'poly':
        if not t[1]:
            return Fraction(0)
        if len(t[1]) == 1 and t[1][0][0] == ():
            return t[1][0][1]
    if t == TRUE:
        return Fraction(1)
    if t == FALSE:
        return Fraction(0)
    return None


def add(a, b):
    d = dict(topoly(a))
    for m, c in topoly(b).items():
        d[m] = d.get(m, 0) + c
    return frompoly(d)


def neg(a):
    return frompoly({m: -c for m, c in topoly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = topoly(a), topoly(b)
    if len(pa) * len(pb) > 400:
        return ('call', 'mul', a, b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            e = dict(m1)
            for at, p in m2:
                e[at] = e.get(at, 0) + p
            # x * inv(x) = 1
            for at in list(e):
                if at[0] == 'inv' and at[1] in e:
                    k = min(e[at], e[at[1]])
                    e[at] -= k; e[at[1]] -= k
            m = tuple(sorted(((at, p) for at, p in e.items() if p), key=lambda x: key(x[0])))
            d[m] = d.get(m, 0) + c1 * c2
    return frompoly(d)


def inv(a):
    c = const(a)
    if c:
        return num(1 / c)
    if a[0] == 'poly' and len(a[1]) == 1:
        (m, c), = a[1]
        r = num(1 / c)
        for at, p in m:
            x = at[1] if at[0] == 'inv' else ('inv', at)
            for _ in range(p):
                r = mul(r, x)
        return r
    if a[0] == 'inv':
        return a[1]
    return ('inv', a)


def div(a, b):
    return mul(a, inv(b))


def lead_neg(t):
    """Is the leading coefficient of the normal form negative?"""
    if t[0] == 'poly' and t[1]:
        return t[1][0][1] < 0
    return False


def NOT(a):
    if a == TRUE:
        return FALSE
    if a == FALSE:
        return TRUE
    if a[0] == 'not':
        return a[1]
    if a[0] == 'cmp' and a[1] == 'eq':
        return ('cmp', 'ne', a[2], a[3])
    if a[0] == 'cmp' and a[1] == 'ne':
        return ('cmp', 'eq', a[2], a[3])
    return ('not', a)


def AND(*xs, op='and'):
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    s = []
    for x in xs:
        for y in (x[1:] if x[0] == op else (x,)):
            if y == unit or y in s:
                continue
            if y == zero:
                return zero
            if NOT(y) in s:
                return zero
            s.append(y)
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    return (op,) + tuple(sorted(s, key=key))


def OR(*xs):
    return AND(*xs, op='or')


def cmp(op, a, b):
    if op == '>':
        return cmp('<', b, a)
    if op == '>=':
        return cmp('<=', b, a)
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return {'==': ca == cb, '!=': ca != cb, '<': ca < cb, '<=': ca <= cb}[op] and TRUE or FALSE
    if a[0] == 'enum' and b[0] == 'enum' and a != b and op in ('==', '!='):
        return TRUE if op == '!=' else FALSE
    if a[0] == 'addr' and b[0] == 'addr' and a[1][0] == 'var' and b[1][0] == 'var' and op in ('==', '!='):
        return TRUE if (a[1] == b[1]) == (op == '==') else FALSE
    if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
        return cmp(op, a[2], b[2])
    if a == b and not has_opaque(a):
        return TRUE if op in ('==', '<=') else FALSE
    if op in ('==', '!='):
        # boolean comparison with constants
        for x, y in ((a, b), (b, a)):
            if y in (TRUE, FALSE) and isbool(x):
                r = x if (y == TRUE) == (op == '==') else NOT(x)
                return r
        x, y = sorted((a, b), key=key)
        return ('cmp', 'eq' if op == '==' else 'ne', x, y)
    return ('cmp', 'lt' if op == '<' else 'le', a, b)


def isbool(t):
    return t[0] in ('cmp', 'and', 'or', 'not', 'bool', 'exists', 'forall')


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return NOT(c)
    if isbool(a) or isbool(b):
        if b == FALSE:
            return AND(c, a)
        if a == TRUE:
            return OR(c, b)
        if a == FALSE:
            return AND(NOT(c), b)
        if b == TRUE:
            return OR(NOT(c), a)
    if c[0] == 'not':
        return ite(c[1], b, a)
    if c[0] == 'cmp' and c[1] == 'ne':
        return ite(('cmp', 'eq', c[2], c[3]), b, a)
    return ('ite', c, a, b)


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str):
            if x in seen:
                continue
            seen.add(x)
            yield x
        st.extend(x)


_op = {}


def has(t, pred):
    return any(pred(x) for x in subterms(t))


def has_opaque(t):
    r = _op.get(t)
    if r is None:
        r = _op[t] = has(t, lambda x: x[0] == 'opaque')
    return r


def contains(t, sub_):
    return has(t, lambda x: x == sub_)


def rebuild(t, f):
    """Rebuild t bottom-up; f(node) may return a replacement for a node before descending (or None)."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in memo:
            return memo[x]
        r = None
        if x and isinstance(x[0], str):
            r = f(x)
        if r is None:
            if x and x[0] == 'poly':
                r = ZERO
                for m, c in x[1]:
                    p = num(c)
                    for at, e in m:
                        g = go(at)
                        for _ in range(e):
                            p = mul(p, g)
                    r = add(r, p)
            elif x and isinstance(x[0], str):
                a = tuple(go(y) for y in x[1:])
                r = mk(x[0], a)
            else:
                r = tuple(go(y) for y in x)
        memo[x] = r
        return r
    return go(t)


def mk(h, a):
    if h == 'inv':
        return inv(a[0])
    if h in ('and', 'or'):
        return AND(*a, op=h)
    if h == 'not':
        return NOT(a[0])
    if h == 'cmp':
        return cmp({'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[a[0]], a[1], a[2])
    if h == 'ite':
        return ite(*a)
    if h == 'call':
        return call(a[0], *a[1:])
    if h == 'ptr':
        return ptr(a[0], a[1])
    return (h,) + a


def subst(t, m):
    return rebuild(t, lambda x: m.get(x))


SYM2 = {'std::max', 'std::min', 'std::hypot', 'std::fmax', 'std::fmin'}
ALIAS = {'fabs': 'std::abs', 'std::fabs': 'std::abs', 'abs': 'std::abs', 'brille::abs': 'std::abs', 'sqrt': 'std::sqrt', 'cos': 'std::cos', 'sin': 'std::sin', 'pow': 'std::pow', 'floor': 'std::floor', 'acos': 'std::acos', 'tan': 'std::tan', 'exp': 'std::exp', 'atan2': 'std::atan2'}


def call(name, *a):
    name = ALIAS.get(name, name)
    if name == 'std::abs' and len(a) == 1:
        c = const(a[0])
        if c is not None:
            return num(abs(c))
        x = a[0]
        if lead_neg(x):
            x = neg(x)
        return ('call', name, x)
    if name in ('std::gcd', 'std::lcm') and len(a) == 2 and all(const(x) is not None and const(x).denominator == 1 for x in a):
        import math
        return num(getattr(math, name[5:])(int(const(a[0])), int(const(a[1]))))
    if name == 'std::sqrt' and len(a) == 1:
        c = const(a[0])
        if c is not None and c >= 0:
            import math
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p * p == c.numerator and q * q == c.denominator:
                return num(Fraction(p, q))
    if name == 'std::conj' and len(a) == 1:
        x = a[0]
        if const(x) is not None:
            return x
        if x[0] == 'call' and x[1] == 'std::conj':
            return x[2]
        if x[0] == 'poly':
            r = ZERO
            for m, c in x[1]:
                p = num(c)
                for at, e in m:
                    for _ in range(e):
                        p = mul(p, call('std::conj', at))
                r = add(r, p)
            return r
        if x[0] == 'sum':
            return ('sum', x[1], x[2], x[3], call('std::conj', x[4]))
    if name == 'std::pow' and len(a) == 2:
        c = const(a[1])
        if c is not None and c.denominator == 1 and 0 <= c <= 6:
            r = ONE
            for _ in range(int(c)):
                r = mul(r, a[0])
            return r
    if name in SYM2 and len(a) == 2:
        a = tuple(sorted(a, key=key))
    return ('call', name) + tuple(a)


def ptr(base, off):
    if base[0] == 'ptr':
        return ('ptr', base[1], add(base[2], off))
    return ('ptr', base, off)


def mksum(bv, lo, hi, body):
    """sum over bv in [lo,hi) of body, factored: constants and terms without bv leave the sum."""
    if body[0] == 'poly' or not contains(body, bv):
        r = ZERO
        for m, c in topoly(body).items():
            out, ins = num(c), ONE
            for at, p in m:
                for _ in range(p):
                    if contains(at, bv):
                        ins = mul(ins, at)
                    else:
                        out = mul(out, at)
            if ins == ONE:
                r = add(r, mul(out, sub(hi, lo)))
            else:
                r = add(r, mul(out, ('sum', bv, lo, hi, ins)))
        return r
    return ('sum', bv, lo, hi, body)


FOLDS = ('sum', 'prod', 'exists', 'forall', 'maxf', 'minf', 'lastf')


def canon(t):
    """Alpha-rename bound variables canonically (nested folds flattened into a bound-variable set is not attempted: two
    nested sums are put in a canonical order when their ranges are independent)."""
    def go(x, env, depth):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == 'bv':
            return env.get(x, x)
        if x and x[0] == 'sum':
            # collect directly nested sums
            chain = []
            y = x
            while y[0] == 'sum':
                chain.append(y[1:4]); y = y[4]
            if len(chain) > 1 and len(chain) <= 3:
                import itertools
                best = None
                for perm in itertools.permutations(range(len(chain))):
                    e2 = dict(env)
                    ok = True
                    rs = []
                    for d, p in enumerate(perm):
                        bv, lo, hi = chain[p]
                        if has(lo, lambda z: z in [c[0] for c in chain]) or has(hi, lambda z: z in [c[0] for c in chain]):
                            ok = False
                        e2[bv] = ('bv', 'c%d' % (depth + d))
                    if not ok:
                        break
                    for p in perm:
                        rs.append((go(chain[p][1], env, depth), go(chain[p][2], env, depth)))
                    b = go(y, e2, depth + len(chain))
                    k = (key(tuple(rs)), key(b))
                    if best is None or k < best[0]:
                        best = (k, rs, b)
                if best:
                    r = best[2]
                    for d in reversed(range(len(chain))):
                        r = ('sum', ('bv', 'c%d' % (depth + d)), best[1][d][0], best[1][d][1], r)
                    return r
        if x and x[0] in FOLDS:
            nb = ('bv', 'c%d' % depth)
            e2 = dict(env); e2[x[1]] = nb
            return (x[0], nb, go(x[2], env, depth), go(x[3], env, depth), go(x[4], e2, depth + 1))
        if x and x[0] == 'poly':
            r = ZERO
            for m, c in x[1]:
                p = num(c)
                for at, e in m:
                    g = go(at, env, depth)
                    for _ in range(e):
                        p = mul(p, g)
                r = add(r, p)
            return r
        if x and isinstance(x[0], str):
            return mk(x[0], tuple(go(y, env, depth) for y in x[1:]))
        return tuple(go(y, env, depth) for y in x)
    return go(t, {}, 0)


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    if not isinstance(h, str):
        return '(' + ','.join(show(x, d) for x in t) + ')'
    if h == 'poly':
        if not t[1]:
            return '0'
        o = []
        for m, c in t[1]:
            s = '·'.join(show(a, d + 1) + ('^%d' % p if p > 1 else '') for a, p in m)
            o.append((str(c) + '·' + s if c != 1 else s) if m else str(c))
        return '(' + ' + '.join(o) + ')' if len(o) > 1 else o[0]
    if h == 'param':
        return t[2] or 'p%d' % t[1]
    if h == 'bv':
        return 'i%s' % t[1]
    if h == 'at':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if h == 'fld':
        return show(t[1], d) + '.' + t[2]
    if h == 'this':
        return 'this'
    if h == 'bool':
        return str(t[1]).lower()
    if h == 'cmp':
        return '(' + show(t[2], d) + {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[t[1]] + show(t[3], d) + ')'
    if h in FOLDS:
        return '%s{%s∈[%s,%s)}(%s)' % (h, show(t[1]), show(t[2]), show(t[3]), show(t[4]))
    if h == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d) for x in t[1:])
    if h == 'inv':
        return '1/' + show(t[1], d)
    if h == 'call':
        return str(t[1]) + '(' + ','.join(show(x, d) for x in t[2:]) + ')'
    if h == 'opaque':
        return '?%s' % t[1]
    if h == 'enum':
        return t[1]
    if h == 'str':
        return '"' + t[1] + '"'
    return h + '(' + ','.join(show(x, d) for x in t[1:]) + ')'
