"""P08: read-only arrays are never modified (value graphs of every method on a read-only object)."""
import itertools
import core
import summ
import terms as T
from core import loc, bare
from p10 import Operand, kind, use_count, readobj
from terms import num

RULE = ('Every method of the array classes that writes elements of a writable array is summarised on a read-only one: no path writes an element of the storage and the refusal is an exception. '
        'Every array a method returns is read-only exactly when it shares the storage of a read-only one, and constructors keep the flag they are given or make writable arrays. '
        'In the Python layer the flag of an imported buffer is the negation of its read-only mark and the mark of an exported one is the negation of the flag.')
CLASSES = {'brille::Array': 'Array', 'brille::Array2': 'Array2', 'brille::lattice::LVec': 'LVec'}


def variants(f, knd, et):
    """Argument lists that fit a 2x3 object."""
    out = [[]]
    nu = 0
    for p in f['params']:
        t = bare(p['t'])
        k, e = kind(t)
        if k in ('Array', 'Array2', 'LVec'):
            c = [Operand(k, 'b', [1, 3], 'row', 0, 0)]
        elif k == 'std' and e.startswith('unsigned'):
            c = [('list', num(1), num(1))] if f['fn'] not in ('resize', 'reshape', 'view') else [('list', num(1), num(3))]
        elif k == 'std':
            c = [('list',) + tuple(('param', 7, 'v%d' % i) for i in range(3))]
        elif t.startswith('std::vector<unsigned int>'):
            c = [('list', num(1), num(0)), ('list', num(1), num(1))] if f['fn'] in ('permute', 'set') else [('list', num(1), num(1))]
        elif t.startswith('std::vector<') and summ.isarith(t[12:-1]):
            c = [('list',) + tuple(('param', 7, 'v%d' % i) for i in range(3))]
        elif t in ('unsigned int', 'int', 'unsigned long', 'long') and t != et:
            c = [num(nu if nu < 2 else 1)]
            nu += 1
        elif summ.isarith(t):
            c = [('param', 8, 'x')]
        else:
            return []
        out = [o + [x] for o in out for x in c]
    return out


def last_owner(E, q, fn, n, args, s):
    return num(1) if fn == 'use_count' else None


def ev(F, f, args, this, hook=use_count):
    E = summ.Eval(F, unroll=24, inline_depth=14, budget=300000)
    E.objects = True
    E.inline_val = True
    E.hook = hook
    S = summ.State()
    xs = []
    for i, a in enumerate(args):
        if isinstance(a, Operand):
            S.st[('var', 'arg%d' % i)] = a.rec
            xs.append(('var', 'arg%d' % i))
        elif a[0] == 'list':
            S.st[('var', 'arg%d' % i)] = a
            xs.append(('var', 'arg%d' % i))
        else:
            xs.append(a)
    if this is not None:
        S.st[('var', 'self')] = this.rec
    r = E.function(f, xs, this=('var', 'self'), state=S)
    return E, r


def states(r):
    fs = [r.final] if r.final is not None else []
    return fs + [e[3] for e in r.exits if len(e) > 3 and e[3] is not None]


def written(r):
    """cells of the object's storage some path writes; None if it is not known"""
    w = set()
    for S in states(r):
        for l, v in S.st.items():
            if l[0] == 'at' and l[1] == ('mem', 'a') and v != l:
                w.add(l)
        for m in S.maps:
            if T.has(m, lambda x: x == ('mem', 'a')) and len(m) > 2:
                base = m[2] if m[0] == 'map' else m
                if base == ('mem', 'a'):
                    return None
    return w



def ret_kind(f):
    return kind(f['rt'])[0] if kind(f['rt'])[0] in ('Array', 'Array2', 'LVec') else None


def carries(C, F, f, knd, what, key):
    """The flag of every array a method returns: read-only exactly when it shares the storage of a read-only object."""
    for mut, bmut, hook in itertools.product((False, True), (False, True), (use_count, last_owner)):
        for a in variants(f, knd, kind(f['cls'])[1]):
            two = any(isinstance(x, Operand) for x in a)
            if not two and not bmut:
                continue
            for x in a:
                if isinstance(x, Operand):
                    x.rec = ('rec',) + tuple((k, ('bool', bmut) if k == '_mutable' else v) for k, v in x.rec[1:])
            w = '%s on a %s %sarray' % (what, 'writable' if mut else 'read-only', 'shared ' if hook is use_count else '') + (' with a %s one' % ('writable' if bmut else 'read-only') if two else '')
            try:
                E, r = ev(F, f, a, Operand(knd, 'a', [2, 3], 'row', 3, 0, mut=mut), hook)
                vals = [(e[2], e[3]) for e in r.exits if e[0] == 'return'] or ([(r.value, r.final)] if r.final is not None else [])
                if not vals and any(e[0] == 'throw' for e in r.exits):
                    continue
                flag(C, 'flag', key, loc(f), w, E, vals, {'a': mut, 'b': bmut})
                if f['fn'] == 'decouple' and not mut:
                    private(C, key, loc(f), w, E, vals)
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
                C.undecided('flag', '%s: %s %s' % (w, type(e).__name__, str(e)[:60]))


def cases(v, lim=64):
    """The alternatives of a conditional value (a member of a record may be the conditional)."""
    def cond(x):
        if x[0] == 'ite':
            return x[1]
        if x[0] == 'rec':
            for k, y in x[1:]:
                if k in ('_data', '_mutable') and y[0] == 'ite':
                    return y[1]

    def take(x, c, b):
        if x[0] == 'ite' and x[1] == c:
            return take(x[2 if b else 3], c, b)
        if x[0] == 'ite':
            return ('ite', x[1], take(x[2], c, b), take(x[3], c, b))
        if x[0] == 'rec':
            return ('rec',) + tuple((k, take(y, c, b) if k in ('_data', '_mutable') else y) for k, y in x[1:])
        return x
    c = cond(v)
    if c is None:
        return [v]
    if lim <= 1:
        raise summ.Undecided('too many cases')
    return cases(take(v, c, True), lim // 2) + cases(take(v, c, False), lim // 2)


def flag(C, rule, key, where, w, E, vals, mut):
    alts = []
    for v, S in vals:
        if v is not None and v[0] in ('var', 'fld', 'at', 'this'):
            v = E.read(v, S or summ.State())
        alts += [(x, S) for x in cases(v)] if v is not None else [(v, S)]
    for v, S in alts:
        if v is not None and v[0] == 'throw':
            continue
        if v is not None and v[0] in ('var', 'fld', 'at', 'this'):
            v = E.read(v, S or summ.State())
        if v is None or v[0] != 'rec':
            C.undecided(rule, w + ': result'); return
        g = dict(v[1:])
        d, m = g.get('_data'), g.get('_mutable')
        if d is None or m is None or d[0] != 'ptr':
            C.undecided(rule, w + ': members of the result'); return
        base = E.read(d[1], S) if d[1][0] == 'var' else d[1]
        own = not (base[0] == 'mem' and base[1] in mut)
        want = {True} if own else {True, False} if mut[base[1]] else {False}
        got = True if m in (T.TRUE, num(1)) else False if m in (T.FALSE, num(0)) else None
        if got is None:
            C.undecided(rule, w + ': flag %s' % (m,)); return
        if got not in want:
            C.bad(rule, key, where, '%s gives %s array that %s' % (w, 'a writable' if got else 'a read-only', 'has its own storage' if own else 'shares the storage of the read-only one'))
            return
    if vals and w is not None:
        C.instance(rule, w)


def private(C, key, where, w, E, vals):
    """What decouple returns for a read-only object is a writable array of its own."""
    for v, S in vals:
        if v is not None and v[0] in ('var', 'fld', 'at', 'this'):
            v = E.read(v, S or summ.State())
        for x in cases(v):
            if x[0] != 'rec':
                continue
            d = dict(x[1:]).get('_data')
            if d is not None and d[0] == 'ptr' and d[1] == ('mem', 'a'):
                C.bad('flag', key, where, '%s is still the read-only array, not a writable copy' % w); return


def ctors(C, F, f, knd, what, key):
    """A constructor from an array keeps the flag when it shares, one given the flag stores it, the others make writable arrays."""
    ps = f['params']
    flags = [i for i, p in enumerate(ps) if bare(p['t']) == 'bool' and p['n'] in ('mut', 'mutable', 'is_mutable', 'writable')]
    for mut in (False, True):
        xs, S, used = [], summ.State(), False
        nb = 0
        ok = True
        for i, p in enumerate(ps):
            t = bare(p['t'])
            k, e = kind(t)
            l = ('var', 'arg%d' % i)
            if k in ('Array', 'Array2', 'LVec'):
                S.st[l] = Operand(k, 'a', [2, 3], 'row', 3, 0, mut=mut).rec
                used = True
                xs.append(l)
            elif i in flags:
                xs.append(('bool', mut)); used = True
            elif k == 'std':
                S.st[l] = ('list', num(2), num(3)) if nb == 0 else ('list', num(3), num(1))
                nb += 1; xs.append(l)
            elif t.startswith('std::vector<unsigned int>'):
                S.st[l] = ('list', num(2), num(3)) if nb == 0 else ('list', num(3), num(1))
                nb += 1; xs.append(l)
            elif t.endswith('*') and summ.isarith(t[:-1].strip().replace('const ', '')):
                xs.append(('ptr', ('mem', 'a' if any(bare(q['t']) == 'bool' for q in ps) else 'p'), T.ZERO))
            elif t in ('unsigned int', 'unsigned long', 'int', 'long'):
                xs.append(num(2))
            elif t == 'bool':
                xs.append(T.FALSE)
            elif 'shared_ptr' in t:
                xs.append(('param', 90, 'refa'))
            elif summ.isarith(t):
                xs.append(('param', 5, 'x'))
            else:
                ok = False
        if not ok:
            C.undecided('flag', what + ': arguments'); return
        w = what + (' given a %s one' % ('writable' if mut else 'read-only') if used else '')
        E = summ.Eval(F, unroll=24, inline_depth=14, budget=300000)
        E.objects = True
        E.inline_val = True
        E.hook = use_count
        try:
            r = E.function(f, xs, this=('var', 'self'), state=S)
            vals = []
            for Z in states(r):
                if any(e[0] == 'throw' and len(e) > 3 and e[3] is Z for e in r.exits):
                    continue
                vals.append((('rec',) + tuple((k, E.read(('fld', ('var', 'self'), k), Z)) for k in ('_data', '_mutable')), Z))
            flag(C, 'flag', key, loc(f), w, E, vals, {'a': mut})
        except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
            C.undecided('flag', '%s: %s %s' % (w, type(e).__name__, str(e)[:60]))
        if not used:
            break

def run(tier):
    C = core.Check('P08', tier, RULE)
    F = C.facts(['d_array.cpp', 'd_arith.cpp'])
    done = set()
    for f in F.concrete():
        knd = CLASSES.get(f.get('csn'))
        if knd is None or f.get('static') or f.get('body') is None or f['fn'].startswith('~') or f['fn'] in ('construct', 'init_check', 'set_stride', 'reset_stride', 'check_array'):
            continue
        k2, et = kind(f['cls'])
        if k2 is None or (f['cls'], f['file'], f['l'], tuple(p['t'] for p in f['params'])) in done:
            continue
        done.add((f['cls'], f['file'], f['l'], tuple(p['t'] for p in f['params'])))
        what = '%s<%s>::%s(%s)' % (knd, et, f['fn'], ', '.join(bare(p['t']).replace('brille::', '').replace('unsigned int', 'u') for p in f['params']))
        key = '%s::%s' % (knd, f['fn'])
        if f.get('ctor'):
            if f['params'] or knd != 'LVec':
                ctors(C, F, f, knd, what, key)
            continue
        if ret_kind(f):
            carries(C, F, f, knd, what, key)
        if not f.get('const') and not f['rt'].endswith(et + ' &') and not f['rt'].endswith('*'):
            vs = variants(f, knd, et)
            hit = None
            for a in vs:
                try:
                    E, r = ev(F, f, a, Operand(knd, 'a', [2, 3], 'row', 3, 0))
                    w = written(r)
                except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
                    C.undecided('writes', '%s: %s %s' % (what, type(e).__name__, str(e)[:60])); hit = 'u'; break
                if w is None or w:
                    try:
                        E, q = ev(F, f, a, Operand(knd, 'a', [2, 3], 'row', 3, 0, mut=False))
                        w2 = written(q)
                    except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
                        C.undecided('writes', '%s: %s' % (what, str(e)[:60])); hit = 'u'; break
                    live = [e for e in q.exits if e[0] != 'throw' and e[1] != T.FALSE] + ([1] if q.final is not None and not any(e[0] == 'return' for e in q.exits) and not all(e[0] == 'throw' for e in q.exits or [('x',)]) else [])
                    if w2 is None or w2:
                        C.bad('writes', key, loc(f), '%s modifies an element of a read-only array' % what); hit = 'b'; break
                    if any(e[0] == 'throw' for e in q.exits):
                        hit = 'ok'
                    else:
                        C.bad('writes', key, loc(f), '%s neither modifies a read-only array nor refuses' % what); hit = 'b'; break
            if hit == 'ok':
                C.instance('writes', what)
            if not vs and f['params']:
                C.undecided('writes', what + ': arguments')
    python(C, C.facts(['d_wrap.cpp']))
    C.floor('writes', 30)
    C.floor('flag', 150)
    C.floor('python', 3)
    return C.finish()


PRIMARY = {'ismutable': True, 'isconst': False, '_mutable': True, 'readonly': False}


def polarity(n, f, depth=0):
    """True: the expression says "writable"; False: "read-only"; None: it is neither (or not understood)."""
    if n is None or depth > 8:
        return None
    k = n.get('k')
    if k in ('cast', 'paren') or k == 'un' and n['op'] == '!':
        p = polarity(n['e'], f, depth + 1)
        return p if p is None or k != 'un' else not p
    if k == 'init' and len(n['c']) == 1:
        return polarity(n['c'][0], f, depth + 1)
    if k == 'ctor' and len(n['args']) == 1:
        return polarity(n['args'][0], f, depth + 1)
    if k == 'call' and n.get('fn') in PRIMARY and not n['args']:
        return PRIMARY[n['fn']]
    if k == 'mem' and n['n'] in PRIMARY:
        return PRIMARY[n['n']]
    if k == 'bin' and n['op'] in ('==', '!='):
        for a, b in ((n['a'], n['b']), (n['b'], n['a'])):
            if b.get('k') == 'bool':
                p = polarity(a, f, depth + 1)
                return None if p is None else p == (bool(b['v']) == (n['op'] == '=='))
    if k == 'cond' and n['a'].get('k') == 'bool' and n['b'].get('k') == 'bool' and n['a']['v'] != n['b']['v']:
        p = polarity(n['c'], f, depth + 1)
        return None if p is None else p == bool(n['a']['v'])
    if k == 'ref':
        ds = [v for v in core.walk(f['body']) if v.get('k') == 'var' and v.get('d') == n.get('d')]
        ws = [x for x in core.walk(f['body']) if x.get('k') == 'bin' and x['op'] == '=' and x['a'].get('k') == 'ref' and x['a'].get('d') == n.get('d')]
        if len(ds) == 1 and len(ws) <= 1:
            src = ws[0]['b'] if ws else ds[0].get('init')
            return polarity(src, f, depth + 1)
    return None


def helpers(F, f):
    """Some in-repository function the function calls reads the mark."""
    return any(any(x.get('k') == 'mem' and x['n'] == 'readonly' for x in core.walk(F.funcs[c['f']]['body'])) for c in core.walk(f['body']) if c.get('k') == 'call' and c.get('f') in F.funcs and F.funcs[c['f']].get('body'))


def python(C, F):
    """The bridge to Python: imported buffers keep their mark, exported ones carry the flag."""
    for f in F.concrete():
        if not f['file'].startswith(('wrap/', '/repo/wrap/')) and '/wrap/' not in f['file']:
            continue
        for n in core.walk(f['body']):
            if n.get('k') != 'ctor':
                continue
            ar = [a for a in n['args']]
            if n.get('fn') == 'buffer_info' and len(ar) > 2:
                if not any(x.get('fn') in ('data', 'cstride', 'ismutable', 'isconst') and 'brille' in str(x.get('cls', '')) for a in ar for x in core.walk(a)):
                    continue
                bools = [a for a, t in zip(ar, n.get('pt', [])) if bare(t) == 'bool']
                key = 'export|%s' % f['fn']
                if not bools or bools[-1].get('dflt'):
                    C.bad('python', key, loc(f, n), '%s exports the elements of an array without saying whether they may be written' % f['fn']); continue
                p = polarity(bools[-1], f)
                if p is None:
                    C.undecided('python', '%s: %s' % (f['fn'], core.pp(bools[-1])))
                elif p:
                    C.bad('python', key, loc(f, n), '%s marks the buffer of a writable array read-only and that of a read-only one writable' % f['fn'])
                else:
                    C.instance('python', '%s exports read-only = %s' % (f['fn'], core.pp(bools[-1])))
            elif n.get('fn') in ('Array', 'Array2') and any('*' in t for t in n.get('pt', [])) and f['fn'].startswith('py2a'):
                bools = [a for a, t in zip(ar, n.get('pt', [])) if bare(t) == 'bool']
                if len(bools) < 2:
                    continue
                key = 'import|%s' % f['fn']
                p = None if bools[-1].get('dflt') else polarity(bools[-1], f)
                if bools[-1].get('k') == 'bool' and not bools[-1]['v']:
                    p = True
                if bools[-1].get('dflt') or p is False or not any(x.get('k') == 'mem' and x['n'] == 'readonly' for x in core.walk(f['body'])) and not helpers(F, f):
                    C.bad('python', key, loc(f, n), '%s does not keep the read-only mark of the buffer it is given' % f['fn'])
                elif p is None:
                    C.undecided('python', '%s: %s' % (f['fn'], core.pp(bools[-1])))
                else:
                    C.instance('python', '%s imports writable = %s' % (f['fn'], core.pp(bools[-1])))
        if f['fn'] == 'a2py':
            if any(x.get('fn') in ('ismutable', 'isconst') or x.get('k') == 'mem' and x['n'] == '_mutable' for x in core.walk(f['body'])):
                C.instance('python', 'a2py(%s) consults the flag' % bare(f['params'][0]['t']))
            else:
                t = f['params'][0]['t'].replace('brille::', '').replace('const ', '')
                C.bad('python', 'a2py(%s)' % t, loc(f), 'a2py(%s) shares the elements of a read-only array with Python as a writable numpy array' % t)
