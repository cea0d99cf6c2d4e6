"""Crystallography the tables are judged against: Hall symbols, group closure modulo
the lattice, intrinsic (screw/glide) translations.  Written from the published Hall
notation and International Tables conventions, independent of /repo's code.
Translations are integers in units of 1/24."""
import itertools
import re
from functools import lru_cache
U = 24
I3 = (1, 0, 0, 0, 1, 0, 0, 0, 1)
h, q = U // 2, U // 4


def mm(a, b):
    return tuple(sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3))


def mv(a, v):
    return tuple(sum(a[3 * i + k] * v[k] for k in range(3)) for i in range(3))


def neg(a):
    return tuple(-x for x in a)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def det(m):
    a, b, c, d, e, f, g, hh, i = m
    return a * (e * i - f * hh) - b * (d * i - f * g) + c * (d * hh - e * g)


def tr(m):
    return m[0] + m[4] + m[8]


def order(m):
    p, n = m, 1
    while p != I3:
        p = mm(p, m)
        n += 1
        if n > 12:
            return 0
    return n


def kind(m):
    """-6..6 (Hermann-Mauguin order of the operation) or None"""
    d, t = det(m), tr(m)
    return {(1, 3): 1, (1, -1): 2, (1, 0): 3, (1, 1): 4, (1, 2): 6, (-1, -3): -1, (-1, 1): -2, (-1, 0): -3, (-1, -1): -4, (-1, -2): -6}.get((d, t))


CENT = {'P': [(0, 0, 0)], 'A': [(0, 0, 0), (0, h, h)], 'B': [(0, 0, 0), (h, 0, h)], 'C': [(0, 0, 0), (h, h, 0)],
        'I': [(0, 0, 0), (h, h, h)], 'R': [(0, 0, 0), (16, 8, 8), (8, 16, 16)], 'F': [(0, 0, 0), (0, h, h), (h, 0, h), (h, h, 0)]}
TR = {'a': (h, 0, 0), 'b': (0, h, 0), 'c': (0, 0, h), 'n': (h, h, h), 'u': (q, 0, 0), 'v': (0, q, 0), 'w': (0, 0, q), 'd': (q, q, q)}


def perm(m, ax):
    """matrix given for the z axis, cyclically re-labelled to the axis ax"""
    s = {'z': 0, 'x': 1, 'y': 2}[ax]
    o = [0] * 9
    for i in range(3):
        for j in range(3):
            o[3 * ((i + s) % 3) + (j + s) % 3] = m[3 * i + j]
    return tuple(o)


Z = {1: I3, 2: (-1, 0, 0, 0, -1, 0, 0, 0, 1), 3: (0, -1, 0, 1, -1, 0, 0, 0, 1), 4: (0, -1, 0, 1, 0, 0, 0, 0, 1), 6: (1, -1, 0, 1, 0, 0, 0, 0, 1)}
AX = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}


def dash(ax, dbl):
    """two-fold about a-b (or a+b) with respect to the axis ax"""
    return perm((0, 1, 0, 1, 0, 0, 0, 0, -1) if dbl else (0, -1, 0, -1, 0, 0, 0, 0, -1), ax)


def seitz(n, ax, pax=None):
    if n == 1:
        return I3
    if ax in "xyz":
        return perm(Z[n], ax)
    if ax == '*' and n == 3:
        return (0, 0, 1, 1, 0, 0, 0, 1, 0)
    if ax in "'\"" and n == 2:
        return dash(pax if pax in AX else 'z', ax == '"')
    raise ValueError('no such Seitz matrix %s%s' % (n, ax))


class Bad(Exception):
    pass


@lru_cache(None)
def decode(sym):
    """(lattice letter, generators [(W,t)], origin shift)"""
    s = sym
    shift = (0, 0, 0)
    if '(' in s:
        s, v = s.split('(')
        vs = v.rstrip(')').split()
        if len(vs) != 3:
            raise Bad('origin shift')
        shift = tuple(int(x) * U // 12 for x in vs)
    tok = s.split()
    if not tok:
        raise Bad('empty')
    if not re.fullmatch('-?[PABCIRF]', tok[0]):
        raise Bad('lattice symbol ' + tok[0])
    for t in tok[1:]:
        m = re.fullmatch(r"-?([12346])(?:[xyz'\"*])?([abcnuvwd]*)([1-5]?)([abcnuvwd]*)", t)
        if not m or m.group(3) and int(m.group(3)) >= int(m.group(1)) or len(set(m.group(2) + m.group(4))) != len(m.group(2) + m.group(4)):
            raise Bad('the part %s' % t)
    cen = tok[0].startswith('-')
    L = tok[0].lstrip('-')
    if L not in CENT:
        raise Bad('lattice letter ' + tok[0])
    gens = []
    if cen:
        gens.append((neg(I3), (0, 0, 0)))
    pn = pax = None
    for k, t in enumerate(tok[1:]):
        inv = t.startswith('-')
        t = t.lstrip('-')
        if not t or t[0] not in '12346':
            raise Bad('order in ' + t)
        n = int(t[0])
        ax = ''.join(c for c in t[1:] if c in "xyz'\"*")
        sub = [c for c in t[1:] if c not in "xyz'\"*"]
        if not ax:
            if k == 0:
                ax = 'z'
            elif n == 2:
                ax = 'x' if pn in (2, 4) else "'" if pn in (3, 6) else None
            elif n == 3:
                ax = '*' if k == 2 or pn in (2, 4) else 'z'
            elif n == 1:
                ax = 'z'
            if ax is None:
                raise Bad('implicit axis of ' + t)
        W = seitz(n, ax, pax)
        if inv:
            W = neg(W)
        v = (0, 0, 0)
        for c in sub:
            if c in TR:
                v = add(v, TR[c])
            elif c in '12345':
                if ax not in AX and ax != '*':
                    raise Bad('screw axis ' + ax)
                a = AX.get(ax, (1, 1, 1))
                v = add(v, tuple(int(c) * x * U // n for x in a))
            else:
                raise Bad('translation ' + c)
        gens.append((W, tuple(x % U for x in v)))
        pax = ax
        pn = n
    if shift != (0, 0, 0):
        gens = [(W, add(add(t, shift), neg(mv(W, shift)))) for W, t in gens]
    return L, gens, shift


def reduce_t(t, cents):
    return min(tuple((x + c) % U for x, c in zip(t, ct)) for ct in cents)


@lru_cache(None)
def group(sym):
    """{W: t mod lattice}; Bad when two translations of one rotation differ by more than the centring"""
    L, gens, _ = decode(sym)
    cents = CENT[L]
    G = {I3: (0, 0, 0)}
    todo = [I3]
    for W, t in gens:
        # the lattice must be carried into itself
        for c in cents:
            if reduce_t(mv(W, c), cents) != (0, 0, 0):
                raise Bad('rotation does not keep the centring')
    while todo:
        A = todo.pop()
        for W, t in gens:
            B = mm(W, A)
            tb = reduce_t(add(mv(W, G[A]), t), cents)
            if B in G:
                if G[B] != tb:
                    raise Bad('the generators create translations beyond the centring')
            else:
                if len(G) >= 48:
                    raise Bad('more than 48 rotations')
                G[B] = tb
                todo.append(B)
    return L, G


# ---- small integer lattices -------------------------------------------------------------
def hnf(vs):
    """row echelon basis of the integer span"""
    vs = [list(v) for v in vs if any(v)]
    out = []
    for c in range(3):
        while True:
            nz = [v for v in vs if v[c]]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda v: abs(v[c]))
            for v in nz:
                if v is not p:
                    f = v[c] // p[c]
                    for k in range(3):
                        v[k] -= f * p[k]
        nz = [v for v in vs if v[c]]
        if nz:
            out.append((c, nz[0]))
            vs = [v for v in vs if v is not nz[0] and any(v)]
    return out


def inspan(v, basis):
    v = list(v)
    for c, p in basis:
        if v[c] % p[c]:
            return False
        f = v[c] // p[c]
        for k in range(3):
            v[k] -= f * p[k]
    return not any(v)


def lattice(L):
    return [(U, 0, 0), (0, U, 0), (0, 0, U)] + [c for c in CENT[L] if any(c)]


@lru_cache(None)
def norm_image(W, L):
    n = order(W)
    return hnf([nsum(W, v) for v in lattice(L)])


def nsum(W, v):
    n = order(W)
    s, p = (0, 0, 0), v
    for _ in range(n):
        s = add(s, p)
        p = mv(W, p)
    return s


def has_intrinsic(G, L, W, w):
    """does the coset of W contain an operation with intrinsic translation w?"""
    n = order(W)
    return inspan(add(tuple(n * x for x in w), neg(nsum(W, G[W]))), norm_image(W, L))


def screw_order(G, L, W):
    v = nsum(W, G[W])
    for k in range(1, 13):
        if inspan(tuple(k * x for x in v), norm_image(W, L)):
            return k
    return 0


def invariant(sym):
    """counts of (kind, order of the intrinsic translation): the same in every setting"""
    L, G = group(sym)
    c = {}
    for W in G:
        k = (kind(W), screw_order(G, L, W))
        c[k] = c.get(k, 0) + 1
    return tuple(sorted(c.items())), symmorphic(sym)


@lru_cache(None)
def symmorphic(sym):
    """is there an origin all rotations share?  (x with t - (1-W)x in the lattice for every generator)"""
    L, G = group(sym)
    gens = decode(sym)[1]
    cents = CENT[L]
    pts = list(itertools.product(range(0, U, 1), repeat=3)) if any(order(W) in (3, 6) for W, _ in gens) else list(itertools.product(range(0, U, 3), repeat=3))
    for W, t in gens:
        ok = []
        for x in pts:
            y = mv(W, x)
            d = (y[0] + t[0] - x[0], y[1] + t[1] - x[1], y[2] + t[2] - x[2])
            if any((d[0] + c[0]) % U == 0 and (d[1] + c[1]) % U == 0 and (d[2] + c[2]) % U == 0 for c in cents):
                ok.append(x)
        pts = ok
        if not pts:
            return False
    return True


def axis(W):
    """primitive direct-space direction of the axis of a rotation (or of the normal of a mirror)"""
    if det(W) < 0:
        W = neg(W)
    for r in (1, 2, 3):
        for v in itertools.product(range(-r, r + 1), repeat=3):
            if max(map(abs, v)) == r and mv(W, v) == v and next(x for x in v if x) > 0:
                return v
    return None


def positive(W):
    """a proper rotation of order > 2: does it turn by +2pi/n about axis(W)?"""
    u = axis(W)
    for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
        y = mv(W, v)
        d = det((u[0], v[0], y[0], u[1], v[1], y[1], u[2], v[2], y[2]))
        if d:
            return d > 0
    return True


# ---- Hermann-Mauguin symbols ----------------------------------------------------------
REF = [  # symbol, Schoenflies, holohedry, Laue class, {kind: count}
    ('1', 'C1', 'triclinic', '1'), ('-1', 'Ci', 'triclinic', '1'), ('2', 'C2', 'monoclinic', '2m'), ('m', 'Cs', 'monoclinic', '2m'),
    ('2/m', 'C2h', 'monoclinic', '2m'), ('222', 'D2', 'orthogonal', 'mmm'), ('mm2', 'C2v', 'orthogonal', 'mmm'), ('mmm', 'D2h', 'orthogonal', 'mmm'),
    ('4', 'C4', 'tetragonal', '4m'), ('-4', 'S4', 'tetragonal', '4m'), ('4/m', 'C4h', 'tetragonal', '4m'), ('422', 'D4', 'tetragonal', '4mmm'),
    ('4mm', 'C4v', 'tetragonal', '4mmm'), ('-42m', 'D2d', 'tetragonal', '4mmm'), ('4/mmm', 'D4h', 'tetragonal', '4mmm'), ('3', 'C3', 'trigonal', '3'),
    ('-3', 'C3i', 'trigonal', '3'), ('32', 'D3', 'trigonal', '3m'), ('3m', 'C3v', 'trigonal', '3m'), ('-3m', 'D3d', 'trigonal', '3m'),
    ('6', 'C6', 'hexagonal', '6m'), ('-6', 'C3h', 'hexagonal', '6m'), ('6/m', 'C6h', 'hexagonal', '6m'), ('622', 'D6', 'hexagonal', '6mmm'),
    ('6mm', 'C6v', 'hexagonal', '6mmm'), ('-6m2', 'D3h', 'hexagonal', '6mmm'), ('6/mmm', 'D6h', 'hexagonal', '6mmm'), ('23', 'T', 'cubic', 'm3'),
    ('m-3', 'Th', 'cubic', 'm3'), ('432', 'O', 'cubic', 'm3m'), ('-43m', 'Td', 'cubic', 'm3m'), ('m-3m', 'Oh', 'cubic', 'm3m')]
# first space-group number of each point group in International Tables, and one past the last
FIRST = [1, 2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 123, 143, 147, 149, 156, 162, 168, 174, 175, 177, 183, 187, 191, 195, 200, 207, 215, 221, 231]
KINDS = [-6, -4, -3, -2, -1, 1, 2, 3, 4, 6]


def pg_of_number(n):
    return max(i for i in range(32) if FIRST[i] <= n) + 1


def classes(G):
    c = dict.fromkeys(KINDS, 0)
    for W in G:
        c[kind(W)] += 1
    return [c[k] for k in KINDS]


def laue_of(pg):
    return REF[pg - 1][3]


def directions(number, rhomb):
    if number < 3:
        return []
    if number < 75:
        return [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    if number < 143:
        return [(0, 0, 1), (1, 0, 0), (1, -1, 0)]
    if number < 195:
        return [(1, 1, 1), (1, -1, 0)] if rhomb else [(0, 0, 1), (1, 0, 0), (1, -1, 0)]
    return [(0, 0, 1), (1, 1, 1), (1, -1, 0)]


def glides(letter, W, rhomb):
    """candidate intrinsic translations of a mirror-type element"""
    c = []
    if letter == 'm':
        c = [(0, 0, 0)]
    elif letter in 'abc':
        c = [TR[letter]]
        if rhomb and letter == 'c':
            c = [(h, h, h)]
    elif letter == 'n':
        c = [v for v in itertools.product((-h, 0, h), repeat=3) if sum(1 for x in v if x) >= 2]
    elif letter == 'd':
        c = [v for v in itertools.product((-q, 0, q), repeat=3) if sum(1 for x in v if x) >= 2] + [(a * q, b * q, k) for a in (-1, 1) for b in (-1, 1) for k in (q, -q, h, 0)]
    return [v for v in c if mv(W, v) == v]


def hm_problems(full, number, hall, choice=''):
    try:
        return hm_check(full, number, hall)
    except (ValueError, IndexError, TypeError):
        return ['the full symbol cannot be read']


def hm_check(full, number, hall):
    L, G = group(hall)
    toks = full.split()
    rhomb = 143 <= number < 168 and toks[0] == 'R' and L == 'P'
    out = []
    if toks[0] != L and not rhomb:
        out.append('lattice letter %s of the full symbol, %s of the Hall symbol' % (toks[0], L))
    toks = toks[1:]
    ds = directions(number, rhomb)
    if number < 3:
        want = {1: ['1'], 2: ['-1']}[number]
        if toks != want:
            out.append('symbol %s' % full)
        return out
    if len(toks) > len(ds):
        return out + ['%d directions in the symbol' % len(toks)]
    for tok, u in zip(toks, ds):
        if number >= 143 and u == (1, 0, 0) and number < 195:
            pass
        ops = [W for W in G if W != I3 and W != neg(I3) and axis(W) in (u, neg(u))]
        rot, _, gl = tok.partition('/')
        if rot and rot.lstrip('-')[0] not in '12346':
            rot, gl = '', rot
        if rot == '1' and not gl:
            if ops:
                out.append('1 along %s, but the group has an element there' % (u,))
            continue
        if rot:
            inv = rot.startswith('-')
            n, _, s = rot.lstrip('-').partition('_')
            n = int(n)
            k = -n if inv else n
            if s and int(s) >= n:
                out.append('screw %s' % rot)
                continue
            c = [W for W in ops if kind(W) == k and (inv or n == 2 or positive(W) == (axis(W) == u) or axis(W) == u and positive(W))]
            if not inv:
                w = tuple(int(s or 0) * U * x // n for x in u)
                c = [W for W in c if has_intrinsic(G, L, W, w) and (n == 2 or (positive(W) if axis(W) == u else not positive(W)))]
            if not c:
                out.append('no %s along %s in the group' % (rot, u))
        if gl:
            ms = [W for W in ops if kind(W) == -2]
            if gl == 'e':
                ok = any(sum(1 for x in 'abc' if any(has_intrinsic(G, L, W, w) for w in glides(x, W, rhomb))) >= 2 for W in ms)
            else:
                ok = any(has_intrinsic(G, L, W, w) for W in ms for w in glides(gl, W, rhomb))
            if not ok:
                out.append('no %s perpendicular to %s in the group' % (gl, u))
        else:
            # the full symbol names every element direction completely: no unnamed mirror with a rotation
            ms = [W for W in ops if kind(W) == -2]
            if ms and rot and not rot.startswith('-') and rot != '1':
                out.append('unnamed mirror perpendicular to %s' % (u,))
    return out


def is_glideless(short):
    return not any(c in '_abcden' for c in short[1:])


def _pgref():
    """class counts of the 32 point groups, from one symmorphic Hall symbol each"""
    H = ['P 1', '-P 1', 'P 2', 'P -2', '-P 2', 'P 2 2', 'P 2 -2', '-P 2 2', 'P 4', 'P -4', '-P 4', 'P 4 2', 'P 4 -2', 'P -4 2', '-P 4 2', 'P 3', '-P 3', "P 3 2", "P 3 -2", '-P 3 2',
         'P 6', 'P -6', '-P 6', 'P 6 2', 'P 6 -2', 'P -6 2', '-P 6 2', 'P 2 2 3', '-P 2 2 3', 'P 4 2 3', 'P -4 2 3', '-P 4 2 3']
    return [classes(group(s)[1]) for s in H]


_PG = None


def classes_of(pg):
    global _PG
    _PG = _PG or _pgref()
    return _PG[pg - 1]


# ---- settings -------------------------------------------------------------------------
SETTINGS = {'': '', 'cab': 'cab', 'bca': 'bca', 'ba-c': 'ba-c', '-cba': '-cba', 'a-cb': 'a-cb'}
MONO = {'b': 'abc', 'c': 'cab', 'a': 'bca', '-b': '-cba', '-a': 'ba-c', '-c': 'a-cb'}


def axes_of(s):
    out, sg = [], 1
    for ch in s:
        if ch == '-':
            sg = -1
        else:
            out.append(('abc'.index(ch), sg))
            sg = 1
    return out


def relabelled(sym, setting):
    """the group of sym after the axes are renamed: (centring vectors, {W: t})"""
    L, G = group(sym)
    P = [0] * 9
    for i, (a, s) in enumerate(axes_of(setting)):
        P[3 * a + i] = s
    return changed(G, CENT[L], tuple(P), tuple(P[3 * j + i] for i in range(3) for j in range(3)))


def changed(G, cents, P, Q):
    c = sorted({tuple(x % U for x in mv(Q, v)) for v in cents})
    return c, {tuple(mm(mm(Q, W), P)): reduce_t(mv(Q, t), c) for W, t in G.items()}


def same_group(sym, other):
    L, G = group(sym)
    c, H = other
    cents = CENT[L]
    if c != sorted(cents) or set(G) != set(H):
        return False
    return all(reduce_t(t, cents) == reduce_t(H[W], cents) for W, t in G.items())


def rhombohedral(sym):
    """the group of a symbol on hexagonal axes (obverse) carried to rhombohedral axes"""
    L, G = group(sym)
    P3 = (2, -1, -1, 1, 1, -2, 1, 1, 1)      # three times the matrix of the rhombohedral axes
    Q = (1, 0, 1, -1, 1, 1, 0, -1, 1)
    H = {}
    for W, t in G.items():
        m = mm(mm(Q, W), P3)
        if any(x % 3 for x in m):
            return None
        H[tuple(x // 3 for x in m)] = tuple(x % U for x in mv(Q, t))
    return [(0, 0, 0)], H


def reference_setting(number, choice):
    """(choice of the setting it is obtained from, how) or None when the choice is not one"""
    if 3 <= number < 16:
        a = choice.rstrip('123')
        d = choice[len(a):]
        if a not in MONO or len(d) > 1:
            return None
        return ('b' + d, MONO[a])
    if 16 <= number < 75:
        d = choice[:1] if choice[:1] in '12' else ''
        if choice[len(d):] not in SETTINGS:
            return None
        return (d, SETTINGS[choice[len(d):]] or 'abc')
    if choice in ('', '1', '2'):
        return (choice, 'abc')
    if choice in ('H', 'R'):
        return ('H', 'abc' if choice == 'H' else 'rhombohedral')
    return None


def is_setting_of(sym, ref, how):
    try:
        return same_group(sym, rhombohedral(ref) if how == 'rhombohedral' else relabelled(ref, how))
    except TypeError:
        return False


def complete(number, choices):
    """do the choices listed for a number form a whole family?"""
    ch = set(choices)
    if 3 <= number < 16:
        suf = {}
        for c in ch:
            a = c.rstrip('123')
            suf.setdefault(a.lstrip('-'), set()).add(c.replace(a.lstrip('-'), ''))
        return set(suf) == set('abc') and len({frozenset(v) for v in suf.values()}) == 1
    if {c[:1] for c in ch} & {'1', '2'}:
        return {c[1:] for c in ch if c[0] == '1'} == {c[1:] for c in ch if c[0] == '2'} and all(c[:1] in ('1', '2') for c in ch) and '1' in ch
    if ch & {'H', 'R'}:
        return ch == {'H', 'R'}
    return '' in ch
