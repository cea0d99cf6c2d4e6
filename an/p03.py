"""P03: the packed fields of the sorting state are independent (bit-provenance dataflow over every accessor and mutator)."""
import core
from core import loc
import bits
from bits import Bits, Unsupported, W, is_any, nonzero

CSN = 'brille::SortingStatus'
FLAGS = ('sorted', 'locked', 'queued', 'claimed')
RULE = ('Every method of the packed state is evaluated in a bit-provenance domain (each result bit is a constant, a bit of the state on '
        'entry, a bit of a parameter, or a bit of a sum). Readers define which bits a field owns; then per field: owned bits disjoint from the others, '
        'setters make the field equal to the argument and leave all other fields bit-identical, counting adds exactly one to the count field, '
        'counts that do not fit are refused by a throw on that path.')


def has_top(v):
    return any(b == 'T' for b in v)


def run(tier):
    C = core.Check('P03', tier, RULE)
    F = C.facts(['d_util.cpp'])
    C.assumptions += ['status_t is a 32 bit unsigned integer', 'the class keeps its state in one integer member']
    recs = [r for (q, dep), r in F.records.items() if q == CSN]
    ms = [f for f in F.methods(CSN) if f.get('body')]
    if not recs or not ms:
        raise core.Broken('class SortingStatus not found')
    fields = [x for x in recs[0]['fields'] if not x.get('static')]
    if len(fields) != 1:
        C.undecided('layout', 'the state is no longer one word: %s' % ', '.join(x['n'] for x in fields))
        C.instance('layout', 'state in %d members' % len(fields))
        return C.finish()
    B = Bits(F, CSN, fields[0]['n'])

    def get(name, nparam, const=None):
        return [f for f in ms if f['sn'] == CSN + '::' + name and len(f['params']) == nparam and (const is None or bool(f.get('const')) == const)]

    S = tuple(('s', i) for i in range(W))
    owned = {}

    def value(fn, word, facts=None):
        """The single value a reader returns for this state."""
        vals = []
        for p, kind, v in B.run(fn, word=word, facts=facts):
            if kind == 'throw' or v is None:
                return None
            if tuple(p.word) != tuple(word):
                rewritten = [i for i in range(W) if p.word[i] != word[i] and p.word[i] != B.know(p, word[i])]
                if rewritten:
                    C.bad('reader', fn['sn'], loc(fn), '%s changes bit(s) %s of the state it only reads' % (fn['sn'], rewritten))
            vals.append(tuple(v))
        if len(set(vals)) != 1:
            return None
        return vals[0]
    # --- readers
    for name in FLAGS + ('visits',):
        for f in get(name, 0):
            try:
                v = value(f, S)
            except Unsupported as e:
                C.undecided('reader', '%s: %s' % (name, e)); continue
            if v is None or has_top(v):
                C.undecided('reader', name + ': value not representable'); continue
            C.instance('reader', '%s at %s' % (name, loc(f)))
            if name in FLAGS:
                b = v[0]
                if isinstance(b, tuple) and b[0] == 's':
                    owned[name] = (b[1],)
                else:
                    C.bad('reader', name, loc(f), '%s() does not return one bit of the state (returns %s)' % (name, b))
            else:
                k = v[0][1] if isinstance(v[0], tuple) and v[0][0] == 's' else None
                want = tuple(('s', i) for i in range(k, W)) + (0,) * k if k is not None else None
                n = len([x for x in v if x != 0])
                if k is None or any(v[j] != ('s', k + j) for j in range(n)) or any(x != 0 for x in v[n:]):
                    C.bad('reader', name, loc(f), 'visits() does not return a run of state bits (bit 0 is %s, %d bits used)' % (v[0], n))
                else:
                    owned[name] = tuple(range(k, k + n))
    names = sorted(owned)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            C.instance('disjoint', '%s/%s' % (a, b))
            both = set(owned[a]) & set(owned[b])
            if both:
                f = (get(a, 0) or ms)[0]
                C.bad('disjoint', a + '/' + b, loc(f), 'fields %s and %s share state bit(s) %s' % (a, b, sorted(both)))

    # readers derived from the fields
    def flagset(fn):
        v = value(fn, S)
        return None if v is None else v[0]
    for name, want, text in (('visited', lambda: ('any', set(owned.get('visits', ()))), 'whether the visit count is non-zero'),
                             ('is_queable', lambda: ('none', set(x for n in FLAGS for x in owned.get(n, ()))), 'that none of the four flags is set')):
        for f in get(name, 0):
            try:
                res = [(p, kind, v) for p, kind, v in B.run(f, word=S)]
            except Unsupported as e:
                C.undecided('derived', '%s: %s' % (name, e)); continue
            if len(owned) != 5:
                C.undecided('derived', name); continue
            kind, bitsw = want()
            wantb = bits.mkany(frozenset(('s', i) for i in bitsw))
            if kind == 'none':
                wantb = bits.bnot(wantb)
            vals = set(v[0] for _, _, v in res if v)
            if len(vals) == 1 and 'T' not in vals:
                C.instance('derived', name)
                got = vals.pop()
                if got != wantb:
                    C.bad('derived', name, loc(f), '%s() does not tell %s: it is %s' % (name, text, show(got)))
            elif all(v and v[0] in (0, 1) for _, _, v in res):
                C.instance('derived', name)
                # by paths: a 'true' path of none-of must know every bit 0; of any-of must know one bit 1
                for p, _, v in res:
                    known = {i: p.facts.get(('s', i)) for i in bitsw}
                    others = [x for x in p.facts if x[0] == 's' and x[1] not in bitsw]
                    if (v[0] == 1) == (kind == 'none'):
                        if any(known[i] != 0 for i in bitsw):
                            C.bad('derived', name, loc(f), '%s() does not consult state bit(s) %s' % (name, [i for i in bitsw if known[i] != 0]))
            else:
                C.undecided('derived', name)

    # --- one mutator path against its effect
    def check_paths(fn, label, want, paths=None, guard=None):
        """want(field) -> expected bits of that field for a path, or None when free."""
        try:
            outs = paths if paths is not None else B.run(fn, word=S)
        except Unsupported as e:
            C.undecided('mutator', '%s: %s' % (label, e)); return
        C.instance('mutator', '%s at %s: %d paths' % (label, loc(fn), len(outs)))
        for p, kind, v in outs:
            if kind == 'throw':
                if not fn.get('ctor') and any(B.know(p, S[i]) != B.know(p, p.word[i]) for i in range(W)):
                    C.bad('mutator', label + '|throw', loc(fn), '%s changes the state before refusing' % label)
                continue
            for f in names:
                exp = want(f, p)
                if exp is None:
                    continue
                got = tuple(B.know(p, p.word[i]) for i in owned[f])
                exps = exp if isinstance(exp, list) else [exp]
                exps = [tuple(B.know(p, b) for b in e) for e in exps]
                if got in exps:
                    continue
                if has_top(got):
                    C.undecided('mutator', '%s: field %s' % (label, f)); continue
                j = [i for i in range(len(got)) if got[i] != exps[0][i]]
                C.bad('mutator', label + '|' + f, loc(fn), '%s leaves %s wrong: bit %d of the field becomes %s instead of %s' % (label, f, j[0], show(got[j[0]]), show(exps[0][j[0]])))
            if guard:
                guard(p)
    same = lambda f: tuple(S[i] for i in owned[f])

    for name in FLAGS:
        if name not in owned:
            continue
        for f in get(name, 1):
            prm = f['params'][0]['n']
            check_paths(f, name + '(value)', lambda g, p, name=name, prm=prm: (('p', prm, 0),) if g == name else same(g))
            # result
            try:
                for p, kind, v in B.run(f, word=S):
                    if kind == 'return' and v is not None and not has_top(v):
                        if B.know(p, v[0]) != B.know(p, ('p', prm, 0)):
                            C.bad('mutator', name + '|result', loc(f), '%s(value) returns %s instead of the new value' % (name, show(v[0])))
            except Unsupported:
                pass
    if 'visits' in owned:
        k, n = owned['visits'][0], len(owned['visits'])
        maxv = (1 << n) - 1
        for f in get('visits', 1):
            prm = f['params'][0]['n']
            pw = bits.width(f['params'][0]['t'])

            def g(p, f=f, prm=prm, pw=pw):
                # the count must be known to fit: an upper bound on the parameter
                if pw <= n:
                    return
                ok, seen = False, False
                for op, a, b in p.bounds:
                    for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op])):
                        if any(isinstance(t, tuple) and t[0] == 'p' and t[1] == prm for t in x):
                            seen = True
                            c = bits.is_const(y)
                            if c is not None and ((o == '<=' and c <= maxv) or (o == '<' and c <= maxv + 1)):
                                ok = True
                            if c is None:
                                C.undecided('mutator', 'visits bound')
                                ok = True
                hi = [p.facts.get(('p', prm, i)) for i in range(n, pw)]
                if all(h == 0 for h in hi):
                    ok = True
                if not ok:
                    C.bad('mutator', 'visits|range', loc(f), 'visits(count) stores a count that does not fit in %d bits: no bound of at most %d is checked on a storing path' % (n, maxv))
            check_paths(f, 'visits(count)', lambda h, p, prm=prm: tuple(('p', prm, i) for i in range(n)) if h == 'visits' else same(h), guard=g)
        inc = tuple(bits.add(tuple(S[k:k + n]), bits.const_word(1, n)))

        def norm(t):
            return t
        full = bits.add(S, bits.const_word(1 << k, W))
        incv = tuple(full[i] for i in owned['visits'])
        for f in get('addvisit', 0):
            def g(p, f=f):
                if not any(any(isinstance(t, tuple) and t[0] == 's' and t[1] in owned['visits'] for t in a + b) for op, a, b in p.bounds) \
                        and not any(x[0] == 's' and x[1] in owned['visits'] for x in p.facts):
                    C.bad('mutator', 'addvisit|range', loc(f), 'addvisit() does not refuse to count past the largest count')
            check_paths(f, 'addvisit()', lambda h, p: incv if h == 'visits' else same(h), guard=g)
        for name in ('addvisit', 'unlocked_addvisit_unsorted'):
            for f in get(name, 1):
                def want(h, p):
                    if h == 'visits':
                        return [incv, same(h)]
                    if h == 'locked':
                        got = tuple(p.word[i] for i in owned['visits'])
                        unchanged = tuple(B.know(p, x) for x in got) == tuple(B.know(p, x) for x in same('visits'))
                        return [same('locked'), (1,)] if unchanged else same('locked')
                    return same(h)
                check_paths(f, name + '(max)', want)
    # --- constructor from the three public values
    for f in ms:
        if f.get('ctor') and len(f['params']) == 3:
            ps = [x['n'] for x in f['params']]
            m = {'sorted': ps[0], 'locked': ps[1], 'visits': ps[2]}

            def want(h, p):
                if h in ('sorted', 'locked'):
                    return (('p', m[h], 0),)
                if h == 'visits':
                    return tuple(('p', m[h], i) for i in range(len(owned['visits'])))
                return (0,) * len(owned[h])
            try:
                outs = B.run(f, word=(0,) * W)
                check_paths(f, 'SortingStatus(sorted, locked, visits)', want, outs)
            except Unsupported as e:
                C.undecided('mutator', 'constructor: %s' % e)
    C.floor('reader', 3)
    C.floor('mutator', 3)
    return C.finish()


def show(b):
    if not isinstance(b, tuple):
        return str(b)
    if b[0] == 's':
        return 'state bit %d' % b[1]
    if b[0] == 'p':
        return 'bit %d of %s' % (b[2], b[1])
    if b[0] == 'not':
        return 'not ' + show(b[1])
    if b[0] in ('any', 'none'):
        return '%s of %s' % (b[0], ', '.join(sorted(show(x) for x in b[1])))
    if b[0] == 'sum':
        return 'bit %d of a sum' % b[4]
    return str(b)
