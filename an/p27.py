"""P27: rotated data transform by their declared kind."""
import re
import core
from summ import Eval, Undecided
from terms import *


class Rip(Eval):
    """Effect summary: every write to a cell with a symbolic index is recorded with its value, its index in closed form over the
    counters of the enclosing loops (counters advanced by a constant per iteration are replaced by their closed form), and the
    conditions it is under.  Loops are taken at one generic iteration."""

    def __init__(self, F, **k):
        super().__init__(F, **k)
        self.ev, self.ctx, self.pc, self.mute, self.lost, self.bases = [], [], [], 0, [], set()
        self.listdet = None

    def canon(self, l):
        """Elements reached through an element function or a pointer are elements of the underlying storage."""
        if l[0] != 'at':
            return l
        b, i = l[1], l[2]
        if i[0] == 'sub' and len(i) == 3:
            st = lambda k: ('at', ('fld', b, '_stride'), num(k))
            return ('at', ('fld', b, '_data'), add(('fld', b, '_shift'), add(mul(st(0), i[1]), mul(st(1), i[2]))))
        if b[0] == 'poly':
            ats = [m[0][0] for m, c in b[1] if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'fld' and m[0][0][2] == '_data']
            if len(ats) == 1:
                return ('at', ats[0], add(sub(b, ats[0]), i))
        return l

    @staticmethod
    def cell(l):
        """A cell whose position depends on more than constants."""
        return l[0] == 'at' and (const(l[2]) is None or l[1][0] == 'at' and const(l[1][2]) is None)

    def read1(self, l, s, quiet=False):
        l = self.canon(l)
        if l[0] == 'at' and l not in s.st and l[1] in self.bases:
            return l
        return super().read1(l, s, quiet)

    def write(self, l, v, s):
        l = self.canon(l)
        if self.cell(l):
            self.bases.add(l[1])
            if not self.mute:
                self.ev.append((l[1], l[2], v, tuple(self.ctx), tuple(self.pc)))
        super().write(l, v, s)

    def stmt0(self, n, s):
        if n is not None and n['k'] == 'if':
            self.budget -= 1
            if n.get('init'):
                s, _ = self.stmt(n['init'], s)
            if n.get('cvar'):
                self.decl(n['cvar'], s)
            c = self.cond(n['cond'], s)
            if c == TRUE:
                return self.stmt(n['then'], s)
            if c == FALSE:
                return self.stmt(n.get('else'), s) if n.get('else') else (s, [])
            self.pc.append(c)
            a, ea = self.stmt(n['then'], s.copy())
            self.pc[-1] = NOT(c)
            b, eb = self.stmt(n['else'], s.copy()) if n.get('else') else (s.copy(), [])
            self.pc.pop()
            ex = [(q, AND(c, cc), v, st) for q, cc, v, st in ea] + [(q, AND(NOT(c), cc), v, st) for q, cc, v, st in eb]
            if a is None:
                return b, ex
            if b is None:
                return a, ex
            return self.merge(c, a, b), ex
        return super().stmt0(n, s)

    def unrolled(self, n, s0):
        k = len(self.ev)
        r = super().unrolled(n, s0)
        if r is None:
            del self.ev[k:]
        return r

    def havoc_loop(self, n, s):
        k = len(self.ev)
        r = super().havoc_loop(n, s)
        if len(self.ev) > k:
            self.lost.append('loop'); del self.ev[k:]
        return r

    def appended(self, body, s, var, bv, lo, hi, varval, step):
        """A loop which only appends the determinant of one operation per element of an index list."""
        while isinstance(body, dict) and (body.get('k') == 'block' and len(body['c']) == 1 or body.get('k') == 'cast'):
            body = body['c'][0] if body['k'] == 'block' else body['e']
        if not (isinstance(body, dict) and body.get('k') == 'call' and body.get('fn') in ('push_back', 'emplace_back') and len(body['args']) == 1
                and body.get('obj') and step == 1 and lo == ZERO and self.listdet):
            return None
        loc = self.lvalue(body['obj'], s)
        if loc is None or loc[0] != 'var' or s.st.get(loc) != ('list',):
            return None
        st = s.copy()
        if var is not None:
            st.st[var] = self.read(varval[1], st) if varval and varval[0] == 'readcell' else varval
        src = self.listdet(simp(self.rv(body['args'][0], st)), bv)
        if src is None or simp(self.sizeof(src, s)) != simp(hi):
            return None
        out = s.copy()
        out.st[loc] = ('dets', src)
        if var is not None:
            out.st[var] = hi
        return out, []

    def loop(self, body, s, var, bv, lo, hi, varval, step):
        r = self.appended(body, s, var, bv, lo, hi, varval, step)
        if r is not None:
            return r
        clo, chi = const(lo), const(hi)
        if clo is not None and chi is not None and clo >= chi:
            if var is not None:
                s.st[var] = lo
            return s, []
        start = lambda: varval
        log = []
        self.writes.append(log)
        self.mute += 1
        try:
            st = s.copy()
            if var is not None:
                st.st[var] = self.read(varval[1], st) if varval and varval[0] == 'readcell' else varval
            pst, pex = self.stmt(body, st)
        finally:
            self.writes.pop()
            self.mute -= 1
        log = [self.canon(l) for l in log]
        cells = any(self.cell(l) for l in log)
        if not cells or step != 1:
            k = len(self.ev)
            r = super().loop(body, s, var, bv, lo, hi, varval, step)
            if len(self.ev) > k:
                self.lost.append('loop'); del self.ev[k:]
            return r
        if any(q != 'continue' and not (q == 'throw') for q, *_ in pex):
            self.lost.append('exit')
        entry = s.copy()
        scal = [l for l in dict.fromkeys(log) if l != var and l in entry.st and not self.cell(l)]
        uid = fresh()

        def run(vals, quiet):
            st = entry.copy()
            if var is not None:
                st.st[var] = self.read(varval[1], st) if varval and varval[0] == 'readcell' else varval
            st.st.update(vals)
            self.mute += quiet
            self.ctx.append((bv, lo, hi))
            try:
                end, ex = self.stmt(body, st)
            finally:
                self.mute -= quiet
                self.ctx.pop()
            for q, c, v, es in ex:
                if q == 'continue':
                    end = self.merge(c, es, end) if end is not None else es
            return end
        phis = {l: ('phi', uid, l) for l in scal}
        end = run(phis, 1)
        vals, final = {}, {}
        for l in scal:
            v = end.st.get(l, phis[l]) if end is not None else phis[l]
            d = sub(v, phis[l]) if v[0] in ('poly', 'phi') else None
            old = self.read(l, entry)
            if v == phis[l]:
                vals[l] = final[l] = old
            elif d is not None and not has(d, lambda x: x[0] in ('phi', 'opaque')) and not contains(d, bv):
                vals[l] = add(old, mul(d, sub(bv, lo)))
                final[l] = add(old, mul(d, sub(hi, lo)))
            else:
                vals[l] = final[l] = opaque('carried')
        run(vals, 0)
        out = entry.copy()
        out.st.update(final)
        bases = {l[1] for l in log if self.cell(l)}
        for o in [o for o in out.st if o[0] == 'at' and o[1] in bases]:
            del out.st[o]
        if var is not None:
            out.st[var] = hi
        return out, []


def zerolist(t):
    return t[0] == 'list' and len(t) > 1 and all(x == ZERO for x in t[1:]) or t == ('null',)


def simp(t):
    """Without the branches that throw, without the out-of-range default of an operation lookup, for row-contiguous storage."""
    def f(x):
        if x[0] == 'ite':
            a, b = x[2], x[3]
            if a[0] == 'throw' or zerolist(a):
                return simp(b)
            if b[0] == 'throw' or zerolist(b):
                return simp(a)
        if x[0] == 'at' and x[1][0] == 'fld' and x[1][2] == '_stride' and x[2] == ONE:
            return ONE
        if x[0] == 'at' and x[1][0] == 'ite' and x[1][2][0] == 'dets' and x[1][3] == ('list',):
            return ('det', ('at', x[1][2][1], simp(x[2])))
        if x[0] == 'at' and x[1][0] == 'ptr':
            return ('at', simp(x[1][1]), simp(add(x[1][2], x[2])))
        if x[0] == 'at' and x[1][0] == 'dets':
            return ('det', ('at', x[1][1], simp(x[2])))
        if x[0] == 'fld' and x[2] == '_shift':
            return ZERO
        return None
    for _ in range(4):
        n = rebuild(t, f)
        if n == t:
            break
        t = n
    return t


def last_writes(ev):
    """Of the writes one iteration makes to one cell, the last."""
    out = {}
    for n, (b, i, v, ctx, pc) in enumerate(ev):
        ctx = tuple((bv, simp(lo), simp(hi)) for bv, lo, hi in ctx)
        out[(b, simp(i), ctx)] = (n, simp(v), tuple(simp(c) for c in pc))
    return out


KINDS = {'rip_real': 'real-space', 'rip_recip': 'reciprocal-space', 'rip_axial': 'axial', 'rip_gamma_complex': 'phonon'}
RULE = {'vectors': 'each vector of each mode is replaced by the declared operation times itself (real R⁻¹v, reciprocal Rᵀv, axial det·R⁻¹v, phonon phase·R⁻¹v)',
        'tensors': 'each tensor of each mode is multiplied on both sides by mutually inverse operations',
        'layout': 'the cells written are exactly the vector and tensor cells of every row and mode',
        'skip': 'nothing but an identity operation or the absence of vectors and tensors skips the rotation',
        'dispatch': 'every pair of unit and kind reaches its own variant with its own arguments, the others throw',
        'cartesian': 'operations for Cartesian data are conjugated by the basis matrix',
        'index': 'the operation indices found when moving a point are the ones used to rotate its data'}


def atoms(p):
    return {a for m, c in topoly(p).items() for a, e in m} if isinstance(topoly(p), dict) else set()


def mat(f):
    return [[f(3 * i + j) for j in range(3)] for i in range(3)]


def mul3(A, B):
    return [[add(add(mul(A[i][0], B[0][j]), mul(A[i][1], B[1][j])), mul(A[i][2], B[2][j])) for j in range(len(B[0]))] for i in range(3)]


def T3(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def det3(A):
    m = lambda a, b: mul(a, b)
    d = ZERO
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        d = add(d, mul(A[0][i], sub(m(A[1][j], A[2][k]), m(A[1][k], A[2][j]))))
    return d


def split_phase(v):
    """A value as (phase factor, rest): the exponential factors common to every term."""
    d = topoly(v)
    if not d:
        return None, v
    com, rest = None, ZERO
    for m, c in d.items():
        ph = tuple(sorted(((a, e) for a, e in m if a[0] == 'call' and a[1].endswith('exp') or a[0] == 'call' and a[1].endswith('conj')), key=str))
        if com is None:
            com = ph
        elif com != ph:
            return None, v
        p = num(c)
        for a, e in m:
            if (a, e) not in ph:
                for _ in range(e):
                    p = mul(p, a)
        rest = add(rest, p)
    return com, rest


class Run:
    def __init__(self, C, F):
        self.C, self.F = C, F

    def where(self, f):
        return '%s:%s' % (f.get('file', f['q'].split('(')[0]), f['l'])

    def member(self, cls, name, args, this=('var', 'self')):
        for f in self.F.funcs.values():
            if f['sn'].endswith(cls + '::' + name) and not f.get('dep') and f.get('body') and len(f['params']) == len(args):
                E = Eval(self.F, unroll=16, inline_depth=9, budget=1000000)
                return simp(E.function(f, list(args), this=this).value)
        return None

    def kind(self, f, name, tn):
        C = self.C
        tag = '%s<%s>' % (name, tn)
        E = Rip(self.F, unroll=16, inline_depth=9, budget=4000000)
        E.hook = self.detv
        E.listdet = self.listdet
        try:
            r = E.function(f, None, this=('var', 'self'))
        except Undecided as e:
            C.undecided('vectors', '%s: %s' % (tag, e)); return
        gamma = name == 'rip_gamma_complex'
        P = [('param', i, p['n']) for i, p in enumerate(f['params'])]
        x, ridx, inv = P[0], P[4 if gamma else 2], P[5 if gamma else 3]
        data = ('fld', x, '_data')
        el = lambda k: ('at', ('fld', ('var', 'self'), '_elements'), num(k))
        n0, n1, n2 = el(0), call('idiv', el(1), num(3)), call('idiv', el(2), num(9))
        span = add(add(el(0), el(1)), el(2))
        br = self.member('Interpolator<%s>' % tn, 'branches', [])
        rows = simp(('at', ('fld', x, '_shape'), ZERO))
        W = last_writes(E.ev)
        key = tag.replace('std::', '')
        if E.lost or br is None:
            C.undecided('layout', '%s: %s' % (tag, E.lost)); return
        got = {'v': {}, 'm': {}}
        scat = {'v': {}, 'm': {}}
        stray = []
        nmat = None
        for (b, i, ctx), (n, v, pc) in W.items():
            rows_ = [c for c in ctx if c[2] == rows and c[1] == ZERO]
            brs = [c for c in ctx if c[2] == br and c[1] == ZERO]
            rest = [c for c in ctx if c not in rows_ and c not in brs]
            if len(rows_) != 1 or len(brs) != 1 or any(c[1] != ZERO for c in rest):
                stray.append((show(b), [(show(c[1]), show(c[2])[:60]) for c in ctx])); continue
            I, B = rows_[0][0], brs[0][0]
            o = add(mul(B, span), n0)
            v = simp(self.assume(v, pc + (NOT(cmp('==', n1, ZERO)), cmp('<', ZERO, n1)))) if len(rest) == 1 and rest[0][2] == n1 else simp(self.assume(v, pc))
            ent = dict(n=n, v=v, pc=pc, I=I, B=B, b=b, i=i)
            if b == data:
                off = sub(sub(i, mul(('at', ('fld', x, '_stride'), ZERO), I)), o)
                # under the conditions of this write
                off = self.assume(off, pc)
                if len(rest) == 1 and rest[0][2] == n1:
                    j = const(sub(off, mul(num(3), rest[0][0])))
                    if j is not None and 0 <= j < 3:
                        got['v'][int(j)] = dict(ent, o=add(o, mul(num(3), rest[0][0])), k=rest[0][0]); continue
                if len(rest) == 1 and rest[0][2] == n2:
                    j = const(sub(sub(off, mul(num(9), rest[0][0])), mul(num(3), n1)))
                    if j is not None and 0 <= j < 9:
                        got['m'][int(j)] = dict(ent, o=add(add(o, mul(num(9), rest[0][0])), mul(num(3), n1)), k=rest[0][0]); continue
                if gamma and len(rest) == 1 and rest[0][2] == mul(num(3), n1) and off == rest[0][0]:
                    got['v']['copy'] = dict(ent, k=rest[0][0]); continue
                if gamma and len(rest) == 1 and rest[0][2] == mul(num(9), n2) and sub(off, mul(num(3), n1)) == rest[0][0]:
                    got['m']['copy'] = dict(ent, k=rest[0][0]); continue
                stray.append(('x', show(off)[:160], [show(c[2])[:60] for c in rest]))
            elif gamma and b[0] in ('var', 'uninit'):
                if len(rest) == 1 and rest[0][2] == n1:
                    scat['v'].setdefault(len(scat['v']), dict(ent, k=rest[0][0], o=add(o, mul(num(3), rest[0][0])))); continue
                if len(rest) == 2 and rest[0][2] == rest[1][2]:
                    scat['m'].setdefault(len(scat['m']), dict(ent, ks=(rest[0][0], rest[1][0]), N=rest[0][2], o=add(o, mul(num(3), n1)))); continue
                stray.append(('temporary', show(i)[:120], [show(c[2])[:60] for c in rest]))
        if stray:
            C.bad('layout', key, self.where(f), '%s writes cells outside the vectors and tensors of a mode: %s' % (tag, str(stray[0])[:300]))
            return
        X = lambda e, k: ('at', data, add(add(mul(('at', ('fld', x, '_stride'), ZERO), e['I']), e['o']), num(k)))
        rot = P[3] if gamma else ('fld', P[1], 'R')
        M = lambda e: mat(lambda k: ('at', ('at', rot, ('at', ridx, e['I'])), num(k)))
        N = lambda e: mat(lambda k: ('at', ('at', rot, ('at', inv, e['I'])), num(k)))
        if not gamma:
            if set(got['v']) != set(range(3)) or set(got['m']) != set(range(9)):
                C.bad('layout', key, self.where(f), '%s leaves out components %s of vectors, %s of tensors' % (tag, sorted(set(range(3)) - set(got['v'])), sorted(set(range(9)) - set(got['m']))))
                return
            C.instance('layout', tag)
            bad = []
            for j, e in got['v'].items():
                A = T3(M(e)) if name == 'rip_recip' else N(e)
                want = [mul3(A, [[X(e, 0)], [X(e, 1)], [X(e, 2)]])[j][0]]
                if name == 'rip_axial':
                    want = [mul(d, want[0]) for d in (('det', ('at', ridx, e['I'])), ('det', ('at', inv, e['I'])), det3(M(e)), det3(N(e)))]
                if not any(sub(e['v'], w) == ZERO for w in want):
                    bad.append((j, e['v']))
            if bad:
                if self.unclear(bad[0][1]):
                    C.undecided('vectors', '%s: %s' % (tag, show(bad[0][1])[:200])); return
                C.bad('vectors', key, self.where(f), '%s: component %d of a %s vector becomes %s' % (tag, bad[0][0], KINDS[name], show(bad[0][1])[:220]))
            else:
                C.instance('vectors', tag)
            bad = []
            for j, e in got['m'].items():
                A, B = (T3(M(e)), T3(N(e))) if name == 'rip_recip' else (N(e), M(e))
                want = mul3(mul3(A, mat(lambda k: X(e, k))), B)[j // 3][j % 3]
                if sub(e['v'], want) != ZERO:
                    bad.append((j, e['v']))
            if bad:
                if self.unclear(bad[0][1]):
                    C.undecided('tensors', '%s: %s' % (tag, show(bad[0][1])[:200])); return
                C.bad('tensors', key, self.where(f), '%s: component %d of a %s tensor becomes %s' % (tag, bad[0][0], KINDS[name], show(bad[0][1])[:220]))
            else:
                C.instance('tensors', tag)
        else:
            self.gamma(f, tag, key, got, scat, X, M, N, P, n1, n2)
        # what may skip the rotation
        for part in ('v', 'm'):
            for e in list(got[part].values()) + list(scat[part].values()):
                for g in e['pc']:
                    if not self.admissible(g, e, M, N, n1, n2):
                        C.bad('skip', key, self.where(f), '%s rotates only if %s' % (tag, show(g)[:200]))
                        return
        # a normal return before the rotation must mean that there is nothing to rotate
        for val in ((0, 3, 0), (2, 0, 9), (0, 6, 9), (1, 3, 36)):
            v = self.fold(r.value, {el(k): num(val[k]) for k in range(3)})
            if v == FALSE:
                C.bad('skip', key + '|early', self.where(f), '%s reports nothing to rotate for elements %s' % (tag, val)); return
            if v != TRUE and not gamma:
                C.undecided('skip', '%s: returns %s' % (tag, show(v)[:100]))
        C.instance('skip', tag)

    def assume(self, t, pc):
        pcs = set(pc)
        def f(y):
            if y[0] == 'ite':
                if y[1] in pcs:
                    return self.assume(y[2], pc)
                if NOT(y[1]) in pcs:
                    return self.assume(y[3], pc)
                # a counter skipped when there are none of its kind advances by zero
                a, b = y[2], y[3]
                if y[1][0] == 'cmp' and y[1][1] == 'lt' and y[1][2] == ZERO:
                    if subst(a, {y[1][3]: ZERO}) == b:
                        return self.assume(a, pc)
            return None
        return rebuild(t, f)

    def listdet(self, v, bv):
        """The index list whose operations' determinants a value is."""
        for a in subterms(v):
            if a[0] == 'fld' and a[2] == 'R':
                for item in {x for x in subterms(v) if x[0] == 'at' and x[2] == bv}:
                    if sub(v, det3(mat(lambda k: ('at', ('at', a, item), num(k))))) == ZERO:
                        return item[1]
        return None

    def unclear(self, t):
        """Whether a value depends on something the summary did not follow."""
        return any(a[0] in ('opaque', 'phi', 'uninit') or a[0] == 'call' and a[1] not in ('idiv', 'size') or a[0] == 'var' and a[1] != 'self' for a in subterms(t))

    def detv(self, E, q, fnm, n, args, s):
        """std::transform of a list of operation indices into their determinants."""
        if q.endswith('std::transform') and len(args) == 4:
            cal = E.rv(args[3], s)
            src = E.rv(args[0], s)
            dst = args[2]
            inner = dst
            while inner.get('k') in ('cast', 'ctor') and (inner.get('e') or len(inner.get('args', [])) == 1):
                inner = inner.get('e') or inner['args'][0]
            if inner.get('k') == 'call' and inner.get('fn') == 'back_inserter' and src[0] == 'ptr':
                loc = E.lvalue(inner['args'][0], s)
                bv = ('bv', fresh())
                tmp = ('var', -fresh())
                item = ('at', src[1], bv)
                v = simp(E.call_lambda(cal, n, [item], s))
                Rk = lambda k: ('at', ('at', ('fld', ('param', 1, None), 'R'), item), num(k))
                names = {a[1] for a in subterms(v) if a[0] == 'fld' and a[2] == 'R'}
                if len(names) == 1:
                    base = ('fld', names.pop(), 'R')
                    if sub(v, det3(mat(lambda k: ('at', ('at', base, item), num(k))))) == ZERO:
                        s.st[loc] = ('dets', src[1])
                        return ZERO
                s.st[loc] = opaque('transform')
                return ZERO
        return None

    def admissible(self, g, e, M, N, n1, n2):
        if g[0] == 'cmp' and g[1] in ('lt', 'ne') and g[2] == ZERO and g[3] in (n1, n2):
            return True
        if g[0] == 'not' and g[1][0] == 'and':
            for A in (M(e), N(e)):
                want = {cmp('==', A[i][j], ONE if i == j else ZERO) for i in range(3) for j in range(3)}
                if set(g[1][1:]) == want:
                    return True
        return False

    def fold(self, t, env):
        def f(y):
            if y in env:
                return env[y]
            if y[0] == 'exists' and const(y[2]) is not None and const(y[3]) is not None:
                return OR(*[self.fold(subst(y[4], {y[1]: num(k)}), env) for k in range(int(const(y[2])), int(const(y[3])))])
            if y[0] == 'at' and y[1][0] == 'list' and const(y[2]) is not None:
                return self.fold(y[1][1 + int(const(y[2]))], env)
            if y[0] == 'call' and y[1] == 'idiv':
                a, b = self.fold(y[2], env), self.fold(y[3], env)
                if const(a) is not None and const(b):
                    return num(int(const(a)) // int(const(b)))
            if y[0] == 'call' and y[1].endswith('sqrt'):
                a = self.fold(y[2], env)
                if const(a) is not None and round(float(const(a)) ** .5) ** 2 == const(a):
                    return num(round(float(const(a)) ** .5))
            if y[0] == 'trunc' or y[0] == 'call' and y[1] == 'trunc':
                a = self.fold(y[-1], env)
                if const(a) is not None:
                    return num(int(const(a)))
            return None
        for _ in range(3):
            t = rebuild(t, f)
        return t

    def gamma(self, f, tag, key, got, scat, X, M, N, P, n1, n2):
        C = self.C
        gt, q, inv, ridx = P[2], P[1], P[5], P[4]
        where = self.where(f)

        def table(nm, k, r):
            return self.member('GammaTable', nm, [k, r], this=gt)

        def phase_of(v):
            """The (atom, operation) pairs whose phases multiply v, and v without them."""
            ph, rest = split_phase(v)
            if ph is None:
                return None, v
            out = []
            for a, e in ph:
                cj = False
                if a[1].endswith('conj'):
                    cj, a = True, a[2]
                if not (a[0] == 'call' and a[1].endswith('exp')):
                    return None, v
                out += [(simp(a[2]), cj)] * e
            return out, rest

        def phase(e, k, r):
            vi = table('vector_index', k, r)
            vec = ('fld', gt, 'vectors_')
            t = ZERO
            for c in range(3):
                qc = ('at', ('fld', q, '_data'), add(mul(('at', ('fld', q, '_stride'), ZERO), e['I']), num(c)))
                dc = ('at', ('fld', vec, '_data'), add(mul(('at', ('fld', vec, '_stride'), ZERO), vi), num(c)))
                t = add(t, mul(qc, dc))
            return mul(mul(('I',), ('glob', 'brille::math::two_pi')), t)
        iR = lambda e: ('at', inv, e['I'])
        R = lambda e: ('at', ridx, e['I'])
        ok = True
        seen = set()
        for e in scat['v'].values():
            j = const(sub(e['i'], mul(num(3), table('F0', e['k'], iR(e)))))
            ph, rest = phase_of(e['v'])
            if j is None or not 0 <= j < 3:
                C.bad('vectors', key + '|place', where, '%s: the vector of an atom is moved to %s' % (tag, show(e['i'])[:200])); ok = False; break
            j = int(j); seen.add(j)
            if ph != [(phase(e, e['k'], iR(e)), False)]:
                C.bad('vectors', key + '|phase', where, '%s: the phase of a vector is %s' % (tag, [show(a)[:200] for a, _ in ph or []])); ok = False; break
            if sub(rest, mul3(N(e), [[X(e, 0)], [X(e, 1)], [X(e, 2)]])[j][0]) != ZERO:
                C.bad('vectors', key, where, '%s: component %d of a phonon vector becomes %s' % (tag, j, show(rest)[:220])); ok = False; break
        if ok and seen != {0, 1, 2}:
            C.bad('layout', key + '|v', where, '%s: only components %s of vectors are rotated' % (tag, sorted(seen))); ok = False
        if ok:
            ok = self.copied(tag, key, where, got, scat, 'v')
        if ok:
            C.instance('vectors', tag)
        ok, seen = True, set()
        for e in scat['m'].values():
            n, m = e['ks']
            row, col = table('F0', n, iR(e)), table('F0', m, iR(e))
            row_known = table('F0', n, R(e))
            Nm = e['N']
            o = add(e['o'], mul(num(9), add(mul(n, Nm), m)))
            e2 = dict(e, o=o)
            off = e['i']
            # the table is square: its side squared is the number of tensors
            if not all(self.fold(Nm, {('at', ('fld', ('var', 'self'), '_elements'), num(2)): num(9 * k * k)}) == num(k) for k in (1, 2, 3, 4, 5, 6, 7, 11)):
                C.bad('layout', key + '|side', where, '%s: the N×N tensors of N atoms are stepped through as %s by the same' % (tag, show(Nm))); ok = False; break
            j = const(sub(off, mul(num(9), add(mul(row, Nm), col))))
            jk = const(sub(off, mul(num(9), add(mul(row_known, Nm), col))))
            ph, rest = phase_of(e['v'])
            if ph is None:
                C.bad('tensors', key + '|phase', where, '%s: a tensor has no single phase: %s' % (tag, show(e['v'])[:200])); ok = False; break
            good = sorted([(phase(e, n, iR(e)), False), (phase(e, m, iR(e)), True)], key=str)
            old = sorted([(phase(e, n, R(e)), False), (phase(e, m, iR(e)), False)], key=str)
            if j is None or sorted(ph, key=str) != good:
                if jk is not None and sorted(ph, key=str) == old:
                    C.bad('tensors', 'rip_gamma_complex|row', where, '%s: the row atom of a tensor is moved by R while its column atom is moved by R⁻¹' % tag)
                    j = jk
                else:
                    C.bad('tensors', key + '|place', where, '%s: the tensor of two atoms is moved to %s with phases %s' % (tag, show(off)[:200], [show(a)[:120] for a, _ in ph])); ok = False; break
            if not 0 <= j < 9:
                C.bad('layout', key + '|cell', where, '%s: component %s of a tensor is written' % (tag, j)); ok = False; break
            j = int(j); seen.add(j)
            want = mul3(mul3(N(e2), mat(lambda k: X(e2, k))), M(e2))[j // 3][j % 3]
            if sub(rest, want) != ZERO:
                C.bad('tensors', key, where, '%s: component %d of a phonon tensor becomes %s' % (tag, j, show(rest)[:220])); ok = False; break
        if ok and seen != set(range(9)):
            C.bad('layout', key + '|m', where, '%s: only components %s of tensors are rotated' % (tag, sorted(seen))); ok = False
        if ok and self.copied(tag, key, where, got, scat, 'm'):
            C.instance('tensors', tag); C.instance('layout', tag)

    def copied(self, tag, key, where, got, scat, part):
        C = self.C
        cp = got[part].get('copy')
        what = {'v': 'vectors', 'm': 'tensors'}[part]
        if cp is None:
            C.bad('layout', key + '|copy' + part, where, '%s: the rotated %s are not all stored back' % (tag, what)); return False
        bases = {e['b'] for e in scat[part].values()}
        if len(bases) != 1 or cp['v'] != ('at', next(iter(bases)), cp['k']):
            C.bad('layout', key + '|copy' + part, where, '%s: %s are stored back from %s' % (tag, what, show(cp['v'])[:160])); return False
        lastn = max(e['n'] for e in scat[part].values())
        other = [e['n'] for p in ('v', 'm') if p != part for e in scat[p].values() if e['b'] in bases]
        if not cp['n'] > lastn or any(lastn < k < cp['n'] for k in other):
            C.bad('layout', key + '|order' + part, where, '%s: the rotated %s are stored back before they are complete' % (tag, what)); return False
        return True

    # ---------------------------------------------------------------- dispatch
    TABLE = {('real_lattice', 'vector'): 'rip_real', ('real_lattice', 'pseudovector'): 'rip_axial', ('real_lattice', 'Gamma'): 'rip_gamma',
             ('reciprocal_lattice', 'vector'): 'rip_recip', ('angstrom', 'Gamma'): 'rip_gamma'}

    def dispatch(self, f, tn):
        C, F = self.C, self.F
        tag = 'rotate_in_place<%s>' % tn
        E = Rip(F, unroll=16, inline_depth=9, budget=4000000)
        locs = {}

        def hook(E, q, fnm, n, args, s):
            if fnm.startswith('rip_'):
                vals = tuple(E.rv(a, s) for a in n['args'])
                if fnm == 'rip_gamma':
                    l = E.lvalue(n['args'][3], s)
                    vals = vals[:3] + (simp(l) if l is not None else vals[3],) + vals[4:]
                return ('call', fnm) + vals
            if fnm in ('to_xyz', 'from_xyz') and n.get('args'):
                return ('basis', fnm, E.rv(n['obj'], s) if n.get('obj') else ZERO, E.rv(n['args'][0], s))
            return None
        E.hook = hook
        try:
            r = E.function(f, None, this=('var', 'self'))
        except Undecided as e:
            C.undecided('dispatch', '%s: %s' % (tag, e)); return
        en = {}
        for q, e in F.enums.items():
            nm = (q[0] if isinstance(q, tuple) else q).split('::')[-1]
            if nm in ('LengthUnit', 'RotatesLike'):
                en[nm] = [(x['n'] if isinstance(x, dict) else x[0]) for x in (e['vals'] if 'vals' in e else e['c'] if 'c' in e else e['e'])]
        P = {p['n']: ('param', i, p['n']) for i, p in enumerate(f['params'])}
        p = [('param', i, x['n']) for i, x in enumerate(f['params'])]
        tail = (p[4], p[5], p[6])
        S = ('var', 'self')
        lu, rl = ('fld', S, 'lenunit_'), ('fld', S, 'rotlike_')
        consts = {x for x in subterms(r.value) if x[0] == 'enum'}
        cart = None
        for u in en['LengthUnit']:
            for k in en['RotatesLike']:
                def g(y):
                    if y[0] == 'cmp' and y[1] in ('eq', 'ne'):
                        for a, b in ((y[2], y[3]), (y[3], y[2])):
                            if b in (lu, rl) and a[0] == 'enum':
                                eq = a[-1].split('::')[-1] == (u if b == lu else k) if isinstance(a[-1], str) else None
                                if eq is None:
                                    eq = str(a[1]).split('::')[-1] == (u if b == lu else k)
                                return TRUE if eq == (y[1] == 'eq') else FALSE
                    return None
                v = rebuild(r.value, g)
                want = self.TABLE.get((u, k))
                key = '%s,%s' % (u, k)
                if v[0] == 'throw':
                    if want:
                        C.bad('dispatch', key, self.where(f), '%s: %s data of kind %s is rejected' % (tag, u, k)); continue
                elif v[0] == 'call' and v[1].startswith('rip_'):
                    if v[1] != want:
                        C.bad('dispatch', key, self.where(f), '%s: %s data of kind %s is rotated by %s' % (tag, u, k, v[1])); continue
                    if v[1] == 'rip_gamma':
                        rot = v[5]
                        okrot = rot == ('fld', p[3], 'R') if u == 'real_lattice' else rot[0] in ('var', 'uninit')
                        ok = v[2:5] == (p[0], p[1], p[2]) and okrot and v[6:] == tail
                        if u == 'angstrom':
                            cart = rot
                    else:
                        ok = v[2:] == (p[0], p[3]) + tail
                    if not ok:
                        C.bad('dispatch', key, self.where(f), '%s: %s data of kind %s is rotated by %s' % (tag, u, k, show(v)[:200])); continue
                else:
                    C.undecided('dispatch', '%s %s: %s' % (tag, key, show(v)[:120])); continue
                C.instance('dispatch', tag + ' ' + key)
        # Cartesian operations: basis · R · basis⁻¹
        W = last_writes(E.ev)
        ent = {}
        for (b, i, ctx), (n, v, pc) in W.items():
            if b[0] == 'at' and cart is not None and b[1] == cart and const(i) is not None and len(ctx) == 1:
                ent[int(const(i))] = (b[2], v, ctx[0])
        if cart is None:
            return
        if set(ent) != set(range(9)):
            C.bad('cartesian', 'entries', self.where(f), '%s fills entries %s of each Cartesian operation' % (tag, sorted(ent))); return
        for k, (j, v, (bv, lo, hi)) in ent.items():
            ang = [x for x in subterms(v) if x[0] == 'basis']
            def bm(nm):
                c = [x for x in ang if x[1] == nm]
                return mat(lambda z: ('at', c[0], num(z))) if c else None
            A, B = bm('to_xyz'), bm('from_xyz')
            Rj = mat(lambda z: ('at', ('at', ('fld', p[3], 'R'), j), num(z)))
            unit = all(angst(x[3]) for x in ang)
            latt = all('lattice' in str(x[2]) and ('param', 2, p[2][2]) in set(subterms(x[2])) for x in ang)
            if A is None or B is None or not unit or not latt or j != bv or lo != ZERO or hi != ('call', 'size', ('fld', p[3], 'R')) \
                    or sub(v, mul3(mul3(A, Rj), B)[k // 3][k % 3]) != ZERO:
                C.bad('cartesian', 'value', self.where(f), '%s: entry %d of a Cartesian operation is %s' % (tag, k, show(v)[:240])); return
        C.instance('cartesian', tag)


def angst(e):
    return any(isinstance(z, str) and z.split('::')[-1] == 'angstrom' for z in (e if isinstance(e, tuple) else (e,)))


def variable(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'ctor', 'init'):
        n = n.get('e') or (n.get('args') or n.get('c') or [None])[0]
    return n.get('d') if isinstance(n, dict) and n.get('k') == 'ref' else None


def indices(C, F, f):
    """The lists filled with R and R⁻¹ when the points are moved are handed, in this order and with the moved points, to the rotation."""
    moves = [n for n in core.walk(f['body']) if n.get('k') == 'call' and n.get('fn', n.get('n')) == 'ir_moveinto']
    rots = [n for n in core.walk(f['body']) if n.get('k') == 'call' and n.get('fn', n.get('n')) == 'rotate_in_place']
    where = '%s:%s' % (f.get('file', f['q']), f['l'])
    if not moves or not rots:
        return
    q, R, iR = [variable(a) for a in (moves[0]['args'][1], moves[0]['args'][3], moves[0]['args'][4])]
    for r in rots:
        got = [variable(r['args'][k]) for k in (1, 4, 5)]
        if None in got or None in (q, R, iR):
            C.undecided('index', '%s:%s' % (where, r.get('l'))); continue
        if got != [q, R, iR]:
            C.bad('index', f['sn'].split('<')[0] + '|' + str(got), where, 'the rotation in %s does not use the points and operations (R, R⁻¹) found when moving them' % f['q'][:60])
        else:
            C.instance('index', '%s:%s' % (f['sn'], r.get('l')))


def run(tier):
    C = core.Check('P27', tier, 'Effect summary of every rotation routine: each loop nest is reduced to the cells it writes, in closed form over the loop '
                   'counters, and their values as polynomials of the operation entries and the previous cells; these are compared with what the declared '
                   'kind of data requires. ' + '; '.join('%s: %s' % x for x in RULE.items()))
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    R = Run(C, F)
    for f in F.funcs.values():
        m = re.match(r'brille::Interpolator<(.*)>::(rip_real|rip_recip|rip_axial|rip_gamma_complex|rotate_in_place)$', f['sn'])
        if not m or f.get('dep') or not f.get('body'):
            continue
        if m.group(2) == 'rotate_in_place':
            R.dispatch(f, m.group(1))
        else:
            R.kind(f, m.group(2), m.group(1))
    for f in F.funcs.values():
        if f['sn'].split('<')[0].endswith('ir_interpolate_at') or f['sn'].endswith('::ir_interpolate_at'):
            if f.get('body'):
                indices(C, F, f)
    C.floor('index', 6)
    C.floor('vectors', 6); C.floor('tensors', 6); C.floor('dispatch', 20)
    C.assumptions += ['interpolation results are stored row by row without gaps (they are freshly allocated)',
                      'the moved point q and the lattice shift handed over by the grid are judged by P26, the operations themselves by P12']
    return C.finish()
