"""P09: the linear-algebra kernels compute their defining formulas (value-graph equality, unrolled at several sizes)."""
import itertools
import math
import core
import summ
import terms as T
import tval
from core import loc
from terms import num, add, sub, mul, neg, inv, div, call, ite, cmp, ZERO, ONE, TRUE, FALSE

RULE = ('Each kernel instantiation is reduced to a value graph of its inputs (loops unrolled at several sizes, calls inlined, branches gated) and '
        'compared with the defining formula of that kernel, element by element: equal polynomial/rational normal form, or, when the forms differ, no valuation '
        'of the leaves separates them. A separated pair is a violation; no parameter other than the documented outputs may be written.')
U = 'brille::utils::'
LA = 'brille::linear_algebra::'
M = 'brille::math::'


def det(a, n):
    """a[i][j] → determinant term"""
    r = ZERO
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        m = num(s)
        for i in range(n):
            m = mul(m, a[i][p[i]])
        r = add(r, m)
    return r


def minor(a, i, j, n):
    return [[a[x][y] for y in range(n) if y != j] for x in range(n) if x != i]


def adj(a, n):
    """adjugate: adj[j][i] = (-1)^(i+j) minor(i,j)"""
    if n == 1:
        return [[ONE]]
    return [[mul(num((-1) ** (i + j)), det(minor(a, j, i, n), n - 1)) for j in range(n)] for i in range(n)]


def S(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


class P:
    """one parameter of the function being specified"""

    def __init__(self, fn, i):
        self.t = fn['params'][i]['t']
        self.term = ('param', i, fn['params'][i]['n'])

    def __getitem__(self, k):
        return ('at', self.term, num(k))

    def mat(self, n, m=None):
        m = m or n
        return [[self[i * m + j] for j in range(m)] for i in range(n)]

    @property
    def cplx(self):
        return 'complex' in self.t


def flat(m):
    return [x for r in m for x in r]


def matmul(a, b):
    return [[S(mul(a[i][k], b[k][j]) for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def transpose(a):
    return [[a[i][j] for i in range(len(a))] for j in range(len(a[0]))]


def conj(x):
    return call('std::conj', x)


def sqrt(x):
    return call('std::sqrt', x)


def norm2(p, n):
    return S(call('std::real', mul(conj(p[i]), p[i])) if p.cplx else mul(p[i], p[i]) for i in range(n))


def herm(a, b, n):
    return S(mul(conj(a[i]) if a.cplx else a[i], b[i]) for i in range(n))


def angle(num_, na, nb):
    """acos(num/(na nb)), zero norms as documented"""
    z = lambda x: cmp('==', x, ZERO)
    c = ite(T.OR(z(na), z(nb)), ite(T.AND(z(na), z(nb)), ONE, ZERO), div(num_, mul(na, nb)))
    return call('std::acos', call('std::max', num(-1), call('std::min', ONE, c)))


def cmul(a, b):
    return mul(a, b)


def ints(fn):
    return [int(str(x).rstrip('UL')) for x in fn.get('targs') or [] if str(x).rstrip('UL').lstrip('-').isdigit()]


# Each spec takes fn and yields (args, {'ret': term | None, 'out': {param index: [terms]}, 'assume': term, 'note': text})
SPEC = {}


def spec(*names):
    def deco(f):
        for n in names:
            SPEC[n] = f
        return f
    return deco


def a0(fn, **kw):
    return [kw.get(p['n']) for p in fn['params']]


def args_at(fn, m):
    return [m.get(i) for i in range(len(fn['params']))]


@spec(U + 'trace')
def _(fn):
    n, = ints(fn)
    A = P(fn, 0)
    yield None, dict(ret=S(A[i * n + i] for i in range(n)))


@spec(U + 'copy_array')
def _(fn):
    n, m = ints(fn)
    yield None, dict(out={0: [P(fn, 1)[i] for i in range(n * m)]})


@spec(U + 'copy_matrix')
def _(fn):
    n, = ints(fn)
    yield None, dict(out={0: [P(fn, 1)[i] for i in range(n * n)]})


@spec(U + 'copy_vector')
def _(fn):
    n, = ints(fn)
    yield None, dict(out={0: [P(fn, 1)[i] for i in range(n)]})


@spec(U + 'multiply_arrays')
def _(fn):
    n, l, m = ints(fn)
    yield None, dict(out={0: flat(matmul(P(fn, 1).mat(n, l), P(fn, 2).mat(l, m)))})


def mm(dims):
    def f(fn):
        n = ints(fn)[0]
        a, b, c = (n if x == 'n' else 1 for x in dims)
        yield None, dict(out={0: flat(matmul(P(fn, 1).mat(a, b), P(fn, 2).mat(b, c)))})
    return f


SPEC[U + 'multiply_matrix_matrix'] = mm('nnn')
SPEC[U + 'multiply_matrix_vector'] = mm('nn1')
SPEC[U + 'multiply_vector_matrix'] = mm('1nn')


@spec(U + 'mul_arrays')
def _(fn):
    for n, l, m in ((2, 3, 4), (1, 2, 3), (3, 1, 2), (3, 3, 3), (1, 1, 1)):
        yield args_at(fn, {1: num(n), 2: num(l), 3: num(m)}), dict(out={0: flat(matmul(P(fn, 4).mat(n, l), P(fn, 5).mat(l, m)))})


def mmr(dims):
    def f(fn):
        for n in (1, 2, 3, 4):
            a, b, c = (n if x == 'n' else 1 for x in dims)
            yield args_at(fn, {1: num(n)}), dict(out={0: flat(matmul(P(fn, 2).mat(a, b), P(fn, 3).mat(b, c)))})
    return f


SPEC[U + 'mul_mat_mat'] = mmr('nnn')
SPEC[U + 'mul_mat_vec'] = mmr('nn1')
SPEC[U + 'mul_vec_mat'] = mmr('1nn')


@spec(U + 'mul_mat_vec_inplace')
def _(fn):
    for n in (1, 2, 3, 4):
        yield args_at(fn, {0: num(n)}), dict(out={2: flat(matmul(P(fn, 1).mat(n), P(fn, 2).mat(n, 1)))})


def elementwise(op):
    def f(fn):
        k = ints(fn)
        n = k[0] * (k[1] if len(k) > 1 else k[0])
        yield None, dict(out={0: [op(P(fn, 1)[i], P(fn, 2)[i]) for i in range(n)]})
    return f


SPEC[U + 'add_arrays'] = SPEC[U + 'add_matrix'] = elementwise(add)
SPEC[U + 'subtract_arrays'] = SPEC[U + 'subtract_matrix'] = elementwise(sub)


def rounded(x, to, frm):
    if 'int' in to and 'double' in frm:
        half = num(T.Fraction(1, 2))
        return ('trunc', ite(cmp('<', x, ZERO), sub(x, half), add(x, half)))
    return x


@spec(U + 'my_cast')
def _(fn):
    yield None, dict(ret=rounded(P(fn, 0).term, fn['rt'], fn['params'][0]['t']))


def castn(cnt):
    def f(fn):
        k = ints(fn)
        n = cnt(k)
        B = P(fn, 1)
        yield None, dict(out={0: [rounded(B[i], fn['params'][0]['t'], B.t) for i in range(n)]})
    return f


SPEC[U + 'cast_array'] = castn(lambda k: k[0] * k[1])
SPEC[U + 'cast_matrix'] = castn(lambda k: k[0] ** 2)
SPEC[U + 'cast_vector'] = castn(lambda k: k[0])


@spec(U + 'mod1')
def _(fn):
    a = P(fn, 0).term
    r = rounded(a, 'int', 'double')
    b = sub(a, r)
    yield None, dict(ret=ite(cmp('<', b, num(T.Fraction('-1e-10'))), add(b, ONE), b))


@spec(U + 'is_int_matrix')
def _(fn):
    if 'int' in fn['params'][0]['t']:
        yield None, dict(ret=TRUE)
        return
    n, = ints(fn)
    A, tol = P(fn, 0), P(fn, 1).term
    c = [cmp('>', call('std::abs', sub(rounded(A[i], 'int', 'double'), A[i])), tol) for i in range(n * n)]
    yield None, dict(ret=T.NOT(T.OR(*c)), leaf=near_int)


def near_int(v, t):
    """leaves close to integers, so that both outcomes of a tolerance test are visited"""
    if t[0] == 'at' and t[1][0] == 'param':
        x = tval.h(v.lk(t), v.seed)
        return float(x % 9 - 4) + ((x >> 8) % 7 - 3) * (0.02 if v.seed % 3 else 1e-4)
    if t[0] == 'param' and t[2] and 'tol' in t[2]:
        return [0.05, 1e-3, 0.3][v.seed % 3]


@spec(U + 'equal_array', U + 'equal_matrix', U + 'equal_vector')
def _(fn):
    k = ints(fn)
    n = k[0] * k[1] if len(k) > 1 else k[0] ** (2 if fn['fn'] == 'equal_matrix' else 1)
    A, B, tol = P(fn, 0), P(fn, 1), P(fn, 2).term
    yield None, dict(ret=T.AND(*[T.NOT(cmp('<', tol, call('std::abs', sub(A[i], B[i])))) for i in range(n)]), leaf=near_int2)


def near_int2(v, t):
    if t[0] == 'at' and t[1][0] == 'param':
        x = tval.h(v.lk(t[:1] + (('any',),) + t[2:]), v.seed)
        y = tval.h(v.lk(t), v.seed)
        return float(x % 9 - 4) + (y % 7 - 3) * 0.02 * (y % 8 == 0 or v.seed % 2)
    if t[0] == 'param' and t[2] and 'tol' in t[2]:
        return [0.05, 1e-3, 0.3, 0.11][v.seed % 4]


@spec(U + 'array_cofactor')
def _(fn):
    for n, m in ((3, 3), (2, 2), (4, 4), (3, 2), (2, 4)):
        A = P(fn, 1)
        for i in range(n):
            for j in range(m):
                # C is A (stored with N elements per row, M rows) without column i and row j
                yield args_at(fn, {2: num(i), 3: num(j), 4: num(n), 5: num(m)}), dict(out={0: [A[x + n * y] for y in range(m) for x in range(n) if x != i and y != j]})


@spec(U + 'matrix_cofactor')
def _(fn):
    for n in (2, 3, 4):
        A = P(fn, 1)
        for i in range(n):
            for j in range(n):
                yield args_at(fn, {2: num(i), 3: num(j), 4: num(n)}), dict(out={0: [A[x + n * y] for y in range(n) for x in range(n) if x != i and y != j]})


@spec(U + 'matrix_determinant')
def _(fn):
    for n in (1, 2, 3, 4, 5):
        yield args_at(fn, {1: num(n)}), dict(ret=det(P(fn, 0).mat(n), n))


@spec(U + 'matrix_adjoint')
def _(fn):
    for n in (1, 2, 3, 4):
        yield args_at(fn, {2: num(n)}), dict(out={0: flat(adj(P(fn, 1).mat(n), n))})


def inverse(fn, n, M, tol, old):
    d = det(M, n)
    ok = cmp('>', call('std::abs', d), tol)
    return d, ok, [ite(ok, div(x, d), o) for x, o in zip(flat(adj(M, n)), old)]


def invleaf(v, t):
    if t[0] == 'param' and t[2] and 'tol' in t[2]:
        return [1e-9, 0.5, 0.0][v.seed % 3]


@spec(U + 'matrix_determinant_and_inverse')
def _(fn):
    for n in (1, 2, 3, 4):
        d, ok, iv = inverse(fn, n, P(fn, 1).mat(n), P(fn, 2).term, [P(fn, 0)[i] for i in range(n * n)])
        yield args_at(fn, {3: num(n)}), dict(ret=d, out={0: iv}, leaf=invleaf)


@spec(U + 'matrix_inverse')
def _(fn):
    for n in (1, 2, 3, 4):
        d, ok, iv = inverse(fn, n, P(fn, 1).mat(n), P(fn, 2).term, [P(fn, 0)[i] for i in range(n * n)])
        yield args_at(fn, {3: num(n)}), dict(ret=ok, out={0: iv}, leaf=invleaf)


@spec(U + 'similar_matrix')
def _(fn):
    n, = ints(fn)
    if n > 3:
        return
    B = P(fn, 2).mat(n)
    d = det(B, n)
    ok = cmp('>', call('std::abs', d), P(fn, 3).term)
    Bi = [[div(x, d) for x in r] for r in adj(B, n)]
    # evaluated lazily: the whole product is compared by valuation
    want = matmul(Bi, matmul(P(fn, 1).mat(n), B))
    yield None, dict(ret=ok, out={0: [ite(ok, x, P(fn, 0)[i]) for i, x in enumerate(flat(want))]}, leaf=invleaf)


@spec(U + 'array_transpose')
def _(fn):
    n, m = ints(fn)
    yield None, dict(out={0: flat(transpose(P(fn, 1).mat(n, m)))})


@spec(U + 'complex_conj_array_transpose')
def _(fn):
    n, m = ints(fn)
    yield None, dict(out={0: [conj(x) for x in flat(transpose(P(fn, 1).mat(n, m)))]})


@spec(U + 'complex_conj_matrix_transpose')
def _(fn):
    n, = ints(fn)
    yield None, dict(out={0: [conj(x) for x in flat(transpose(P(fn, 1).mat(n)))]})


@spec(U + 'matrix_transpose')
def _(fn):
    n, = ints(fn)
    src = P(fn, len(fn['params']) - 1)
    yield None, dict(out={0: flat(transpose(src.mat(n)))})


@spec(U + 'matrix_metric')
def _(fn):
    n, = ints(fn)
    L = P(fn, 1).mat(n)
    yield None, dict(out={0: flat(matmul(transpose(L), L))})


@spec(U + 'vector_norm_squared')
def _(fn):
    n, = ints(fn)
    yield None, dict(ret=norm2(P(fn, 0), n))


@spec(U + 'vector_dot')
def _(fn):
    if len(fn['params']) == 2:
        n, = ints(fn)
        yield None, dict(ret=S(mul(P(fn, 0)[i], P(fn, 1)[i]) for i in range(n)))
    else:
        for n in (0, 1, 2, 3, 5):
            yield args_at(fn, {0: num(n)}), dict(ret=S(mul(P(fn, 1)[i], P(fn, 2)[i]) for i in range(n)))


@spec(U + 'vector_cross')
def _(fn):
    a, b = P(fn, 1), P(fn, 2)
    yield None, dict(out={0: [sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]})


def dist(a, b, n):
    if a.cplx:
        d = [sub(a[i], b[i]) for i in range(n)]
        return sqrt(S(call('std::real', mul(x, conj(x))) for x in d))
    return sqrt(S(mul(sub(a[i], b[i]), sub(a[i], b[i])) for i in range(n)))


@spec(U + 'vector_distance')
def _(fn):
    for n in (1, 2, 3, 5):
        yield args_at(fn, {0: num(n)}), dict(ret=dist(P(fn, 1), P(fn, 2), n))


@spec(U + 'frobenius_distance')
def _(fn):
    for n in (1, 2, 3):
        yield args_at(fn, {0: num(n)}), dict(ret=dist(P(fn, 1), P(fn, 2), n * n))


@spec(U + 'vector_angle', U + 'euclidean_angle', U + 'hermitian_angle')
def _(fn):
    a, b = P(fn, 1), P(fn, 2)
    for n in (1, 2, 3):
        na, nb = sqrt(norm2(a, n)), sqrt(norm2(b, n))
        if fn['fn'] == 'hermitian_angle' and a.cplx:
            h = herm(a, b, n)
            top = sqrt(call('std::norm', h))
        elif a.cplx:
            top = call('std::real', herm(a, b, n))
        else:
            top = herm(a, b, n)
        yield args_at(fn, {0: num(n)}), dict(ret=angle(top, na, nb), tol=1e-4)


@spec(U + 'hermitian_product')
def _(fn):
    for n in (0, 1, 2, 3, 5):
        yield args_at(fn, {0: num(n)}), dict(ret=herm(P(fn, 1), P(fn, 2), n))


@spec(U + 'complex_prod')
def _(fn):
    yield None, dict(ret=mul(conj(P(fn, 0).term), P(fn, 1).term))


@spec(U + 'vector_product')
def _(fn):
    a, b = P(fn, 1), P(fn, 2)
    for n in (0, 1, 2, 3):
        h = herm(a, b, n)
        yield args_at(fn, {0: num(n)}), dict(ret=call('std::real', mul(h, conj(h))) if a.cplx or b.cplx else h)


@spec(U + 'squared_distance')
def _(fn):
    d = sub(P(fn, 0).term, P(fn, 1).term)
    yield None, dict(ret=call('std::real', mul(d, conj(d))) if P(fn, 0).cplx else mul(d, d))


@spec(U + 'magnitude')
def _(fn):
    a = P(fn, 0).term
    yield None, dict(ret=sqrt(call('std::real', mul(a, conj(a)))) if P(fn, 0).cplx else call('std::abs', a))


@spec(U + 'antiphase')
def _(fn):
    k = len(fn['params'])
    if k == 1:
        a = P(fn, 0)
        yield None, dict(ret=call('std::polar', ONE, neg(call('std::arg', a.term))) if a.cplx else ONE)
        return
    a, b = P(fn, 1), P(fn, 2)
    for n in (1, 2, 3, 4):
        yield args_at(fn, {0: num(n)}), dict(ret=call('std::polar', ONE, neg(call('std::arg', herm(a, b, n)))) if a.cplx else ONE)


@spec(U + 'inplace_antiphase')
def _(fn):
    a, b = P(fn, 1), P(fn, 2)
    for n in (1, 2, 3, 4):
        ph = call('std::polar', ONE, neg(call('std::arg', herm(a, b, n)))) if a.cplx else ONE
        yield args_at(fn, {0: num(n)}), dict(out={3: [mul(ph, b[i]) for i in range(n)]})


@spec(U + 'coth_over_en')
def _(fn):
    e, b = P(fn, 0).term, P(fn, 1).term
    yield None, dict(ret=inv(mul(e, call('std::tanh', mul(num(T.Fraction(1, 2)), mul(e, b))))))


@spec(U + 'gcd')
def _(fn):
    for a, b in ((12, 18), (18, 12), (7, 3), (0, 5), (5, 0), (1, 1), (1024, 36), (17, 17), (1000000007, 2), (360, 225), (21, 14)):
        yield [num(a), num(b)], dict(ret=num(math.gcd(a, b)))


@spec(U + 'binomial_coefficient')
def _(fn):
    for n, k in ((5, 2), (5, 0), (5, 5), (1, 1), (10, 3), (12, 6), (3, 2), (20, 17), (0, 0)):
        yield [num(n), num(k)], dict(ret=num(math.comb(n, k)))


@spec('brille::transpose')
def _(fn):
    if '9' not in fn['params'][0]['t']:
        return
    yield None, dict(ret=('list',) + tuple(flat(transpose(P(fn, 0).mat(3)))))


def vec_arg(fn, i, n):
    """A vector argument is given as the list of its symbolic elements."""
    if 'std::vector' in fn['params'][i]['t']:
        return ('list',) + tuple(P(fn, i)[k] for k in range(n))


@spec(LA + 'dot')
def _(fn):
    if len(fn['params']) != 2:
        return
    for n in ((3,) if 'array' in fn['params'][0]['t'] else (1, 2, 3, 4)):
        yield [vec_arg(fn, 0, n), vec_arg(fn, 1, n)], dict(ret=S(mul(P(fn, 0)[i], P(fn, 1)[i]) for i in range(n)))


@spec(LA + 'norm')
def _(fn):
    for n in ((3,) if 'array' in fn['params'][0]['t'] else (1, 2, 3, 4)):
        yield [vec_arg(fn, 0, n)], dict(ret=sqrt(norm2(P(fn, 0), n)))


@spec(LA + 'hat')
def _(fn):
    a = P(fn, 0)
    yield None, dict(ret=('list',) + tuple(div(a[i], sqrt(norm2(a, 3))) for i in range(3)))


@spec(LA + 'mul_mat_vec')
def _(fn):
    yield None, dict(ret=('list',) + tuple(flat(matmul(P(fn, 0).mat(3), P(fn, 1).mat(3, 1)))))


@spec(LA + 'mul_vec_mat')
def _(fn):
    yield None, dict(ret=('list',) + tuple(flat(matmul(P(fn, 0).mat(1, 3), P(fn, 1).mat(3)))))


@spec(LA + 'mul_mat_mat')
def _(fn):
    yield None, dict(ret=('list',) + tuple(flat(matmul(P(fn, 0).mat(3), P(fn, 1).mat(3)))))


@spec(LA + 'mat_inverse')
def _(fn):
    A = P(fn, 0).mat(3)
    d = det(A, 3)
    yield None, dict(ret=('list',) + tuple(div(x, d) for x in flat(adj(A, 3))))


def deg(v, t):
    """degree valuations: multiples of 15 in several turns, both signs, and generic angles"""
    if t[0] == 'param':
        return [float(15 * (v.seed - 24)), 30.0 * v.seed, -37.25 * v.seed + 3, 7.5 * v.seed][v.seed % 4] if v.seed < 24 else 15.0 * (v.seed - 30)


def rad(v, t):
    if t[0] == 'param':
        return [0.0, math.pi / 3, math.pi / 2, 2 * math.pi / 3, math.pi, 0.3, -1.2, math.pi / 6, 2.5, 9.0, -math.pi, math.pi / 4][v.seed % 12]


PI = call('std::acos', num(-1))


@spec(M + 'degree_to_radian')
def _(fn):
    yield None, dict(ret=mul(P(fn, 0).term, mul(PI, num(T.Fraction(1, 180)))), leaf=deg)


@spec(M + 'cosd', M + 'sind')
def _(fn):
    x = mul(P(fn, 0).term, mul(PI, num(T.Fraction(1, 180))))
    yield None, dict(ret=call('std::' + fn['fn'][:-1], x), leaf=deg)


@spec(M + 'cos_and_sin_d')
def _(fn):
    x = mul(P(fn, 0).term, mul(PI, num(T.Fraction(1, 180))))
    yield None, dict(ret=('tuple', call('std::cos', x), call('std::sin', x)), leaf=deg)


@spec(M + 'cos_and_sin')
def _(fn):
    x = P(fn, 0).term
    yield None, dict(ret=('tuple', call('std::cos', x), call('std::sin', x)), leaf=rad)


def run(tier):
    C = core.Check('P09', tier, RULE)
    F = C.facts(['d_util.cpp'])
    gmemo = {}

    def glob(v, t):
        if t[0] == 'call' and t[1] == 'std::isfinite':
            return 1
        if t[0] == 'glob':
            q = t[1]
            if q not in gmemo:
                gmemo[q] = None
                for k, g in F.gvars.items():
                    if g.get('q', k) == q and g.get('init'):
                        e = summ.Eval(F, unroll=8)
                        e.this = ('this',)
                        try:
                            gmemo[q] = tval.Val(0, leaf=glob)(e.rv(g['init'], summ.State()))
                        except (tval.NoValue, summ.Undecided):
                            pass
            return gmemo[q]

    def test(a, b, fn, args, sp):
        if T.has(a, lambda x: x[0] in ('opaque', 'eff', 'uninit', 'unset', 'memory')):
            return 'unknown', 'not reduced'
        ty = {('param', i, p['n']): p['t'] for i, p in enumerate(fn['params'])}
        lf = sp.get('leaf')

        def leaf(v, t):
            r = lf(v, t) if lf else None
            return r if r is not None else glob(v, t)
        return tval.compare(a, b, ty, leaf=leaf, seeds=72 if tier == 'thorough' else 48)

    seen = set()
    for fn in list(F.concrete()):
        sp = SPEC.get(fn['sn'])
        if sp is None or fn.get('body') is None:
            continue
        who = '%s(%s) %s' % (fn['sn'].replace('brille::', ''), ', '.join(p['t'].replace('std::complex<double>', 'cd') for p in fn['params']), '<%s>' % ','.join(map(str, ints(fn))) if ints(fn) else '')
        rule = 'formula'
        done = 0
        try:
            cases = list(sp(fn))
        except (ValueError, IndexError):
            C.undecided(rule, '%s has a signature the specification does not cover' % who)
            continue
        for args, want in cases:
            sizes = ' '.join(T.show(a) for a in args if a is not None and a[0] == 'poly') if args else ''
            E = summ.Eval(F, unroll=64, inline_depth=9, budget=400000)
            try:
                r = E.function(fn, args)
            except (summ.Undecided, RecursionError) as e:
                C.undecided(rule, '%s [%s]: %s' % (who, sizes, e))
                continue
            done += 1
            obs = []
            fin = r.final
            if want.get('ret') is not None:
                w, g = want['ret'], r.value
                if g is None:
                    C.undecided(rule, '%s returns nothing' % who); continue
                if w[0] in ('list', 'tuple') and g[0] == w[0] and len(g) == len(w):
                    obs += [('result element %d' % i, x, y) for i, (x, y) in enumerate(zip(g[1:], w[1:]))]
                else:
                    obs.append(('result', g, w))
            for i, ws in (want.get('out') or {}).items():
                base = ('param', i, fn['params'][i]['n'])
                for k, w in enumerate(ws):
                    obs.append(('%s[%d]' % (base[2] or 'argument %d' % i, k), E.read(('at', base, num(k)), fin), w))
                for l in fin.st:
                    if l[0] == 'at' and l[1] == base and T.const(l[2]) is not None and not (0 <= T.const(l[2]) < len(ws)) and fin.st[l] != l:
                        C.bad(rule, '%s|extra' % fn['sn'], loc(fn), '%s [%s] writes %s[%s], outside its documented result of %d elements' % (who, sizes, base[2], T.show(l[2]), len(ws)))
            for l, v in fin.st.items():
                b = summ.root(l)
                if b[0] == 'param' and b[1] not in (want.get('out') or {}) and l != b and v != l:
                    C.bad(rule, '%s|writes' % fn['sn'], loc(fn), '%s [%s] writes its input %s' % (who, sizes, T.show(l)))
            for what, g, w in obs:
                res, why = test(g, w, fn, args, want)
                if res == 'differ':
                    C.bad(rule, fn['sn'], loc(fn), '%s [%s]: %s is %s, the formula gives %s (%s)' % (who, sizes, what, T.show(g)[:160], T.show(w)[:160], why))
                elif res == 'same':
                    C.instance(rule, '%s [%s] %s: %s' % (who, sizes, what, why))
                else:
                    C.undecided(rule, '%s [%s] %s: %s' % (who, sizes, what, why))
        if done:
            seen.add(fn['sn'])
    for n in SPEC:
        if n not in seen:
            C.undecided('coverage', 'no analysable instantiation of ' + n)
    C.floor('formula', 300)
    C.assumptions += ['real arithmetic: rounding is not modelled', 'kernels are compared at the listed sizes; a size-dependent special case at another size is not seen']
    return C.finish()
