"""P14: enumeration conversions (table folding per enumerator over summaries, switch exhaustiveness)."""
import core
import summ
import terms as T
from core import loc, bare
from terms import num

RULE = ('Every function whose result text or letter is chosen by one enumeration is summarised and folded for each enumerator: no two enumerators share a text and none gets the text of an unknown value or nothing. '
        'Every table of (text, enumerator) pairs given to the Python binding or the file layer lists each enumerator once, under a text that no other enumerator has as its name. Every conversion from an integer code assigns each enumerator under its own value; '
        'letters decode to the enumerator they came from. Every switch on an enumeration lists all its values or has a default.')


def enums(F):
    out = {}
    for k, e in F.enums.items():
        if 'unnamed' in e['q'] or not e['file'].startswith(core.REPO) or e.get('ut', '').startswith('<'):
            continue
        out[e['q']] = e
    return out


def which(E, t):
    t = bare(t)
    if t in E:
        return E[t]
    return None


def uncast(n):
    while n is not None and n.get('k') in ('cast', 'paren'):
        n = n['e']
    return n


def enumref(n):
    n = uncast(n)
    return n if n is not None and n.get('k') == 'ref' and n.get('dk') == 'enum' else None


def textof(n):
    n = uncast(n)
    while n is not None and n.get('k') == 'ctor' and n['args'] and bare(n['t']).startswith('std::basic_string'):
        n = uncast(n['args'][0])
    return n['s'] if n is not None and n.get('k') == 'str' else None


def is_flag(e):
    """values that are combined bit by bit: a switch over them is not a choice between alternatives"""
    return e['q'] == 'brille::logger::Flags'


def switches(C, F, ES):
    seen = set()
    for f in F.best():
        if f.get('body') is None:
            continue
        for n in core.walk(f['body']):
            if n['k'] != 'switch':
                continue
            e = which(ES, n.get('ct', ''))
            if e is None or (f['file'], n['l']) in seen:
                continue
            seen.add((f['file'], n['l']))
            got, default = set(), False

            def labels(x):
                nonlocal default
                if x is None:
                    return
                if x.get('k') == 'switch' and x is not n:
                    return
                if x.get('k') == 'case':
                    r = enumref(x['val'])
                    if r is not None:
                        got.add(r['v'])
                if x.get('k') == 'default':
                    default = True
                for y in core.kids(x):
                    labels(y)
            labels(n['body'])
            miss = [c['n'] for c in e['c'] if c['v'] not in got]
            what = '%s line %s: switch on %s' % (f['q'].split('<')[0], n['l'], e['q'].split('::')[-1])
            if miss and not default:
                C.bad('switch', '%s|%s' % (f['q'].split('<')[0].split('::')[-1], e['q'].split('::')[-1]), loc(f, n), '%s has neither a default nor a case for %s' % (what, ', '.join(miss)))
            else:
                C.instance('switch', what)


def pairs(C, F, ES):
    """(text, enumerator) tables"""
    seen = set()
    for f in F.best():
        if f.get('body') is None:
            continue
        tab = {}
        for n in core.walk(f['body']):
            if n['k'] in ('call', 'ctor') and len(n['args']) >= 2:
                for a, b in zip(n['args'], n['args'][1:]):
                    t, r = textof(a), enumref(b)
                    if t is not None and r is not None:
                        kind = 'python' if 'pybind11' in (n.get('cls') or n.get('q') or '') else 'file' if 'HighFive' in (n.get('cls') or '') else 'table'
                        tab.setdefault((kind, bare(r['t'])), []).append((t, r, n))
        for (kind, et), l in tab.items():
            e = which(ES, et)
            if e is None or (f['file'], f['l'], et) in seen or len(l) < 2:
                continue
            seen.add((f['file'], f['l'], et))
            sh = et.split('::')[-1]
            names = {c['n']: c['v'] for c in e['c']}
            what = '%s table of %s in %s' % (kind, sh, f['fn'])
            bad = None
            texts = [t for t, _, _ in l]
            for t, r, n in l:
                if texts.count(t) > 1:
                    bad = (n, 'lists "%s" twice' % t)
                elif t in names and names[t] != r['v']:
                    bad = (n, 'gives %s::%s the name of %s::%s' % (sh, r['n'], sh, t))
            vals = [r['v'] for _, r, _ in l]
            dup = [r['n'] for _, r, _ in l if vals.count(r['v']) > 1]
            miss = [c['n'] for c in e['c'] if c['v'] not in vals]
            if bad is None and dup:
                bad = (l[0][2], 'lists %s::%s twice' % (sh, dup[0]))
            if bad is None and miss:
                bad = (l[0][2], 'has no entry for %s' % ', '.join(sh + '::' + m for m in miss))
            if bad:
                C.bad(kind, sh, loc(f, bad[0]), 'the %s %s' % (what, bad[1]))
            else:
                C.instance(kind, what + ' (%d entries)' % len(l))


UNKNOWN = ('unknown', 'error')


def names(C, F, ES):
    """enumeration -> text or letter"""
    seen = set()
    folds = {}
    for f in F.best():
        if f.get('body') is None or f.get('dep') or (f['file'], f['l']) in seen or '/src/' not in f['file'] and '/wrap/' not in f['file']:
            continue
        rt = bare(f.get('rt', ''))
        if not (rt == 'char' or rt.startswith('std::basic_string<char') or rt == 'std::basic_ostream<char>'):
            continue
        sw = [n for n in core.walk(f['body']) if n['k'] == 'switch' and which(ES, n.get('ct', ''))]
        par = [(i, which(ES, p['t'])) for i, p in enumerate(f['params']) if which(ES, p['t'])]
        if not par and len(sw) != 1:
            continue
        if rt == 'std::basic_ostream<char>' and not par:
            continue
        if par and not sw and not any(n['k'] == 'bin' and n['op'] in ('==', '!=') and any(enumref(n[x]) for x in 'ab') for n in core.walk(f['body'])):
            continue
        e = par[0][1] if par else which(ES, sw[0]['ct'])
        if is_flag(e):
            continue
        seen.add((f['file'], f['l']))
        what = '%s of %s' % (f['fn'], e['q'].split('::')[-1])
        vals = {}
        und = None
        for c in e['c']:
            try:
                vals[c['n']] = fold(F, f, par, sw, e, c, rt)
            except (summ.Undecided, RecursionError, KeyError, TypeError, IndexError, AttributeError) as ex:
                und = str(ex)[:60]
                break
            if vals.get(c['n']) is None:
                und = 'not a constant'
                break
        if und == 'not a constant':
            continue    # a longer text that mentions other things as well
        if und:
            C.undecided('names', '%s: %s' % (what, und))
            continue
        if len(set(vals.values())) == 1:
            continue    # the text does not depend on it
        inv = {}
        bad = None
        null = {c['n'] for c in e['c'] if c['n'] == '_'}
        for n, v in vals.items():
            if v in inv:
                bad = '%s and %s are both %s' % (inv[v], n, show(v))
            inv.setdefault(v, n)
            if n not in null and (v in ('', 0) or isinstance(v, str) and any(u in v.lower() for u in UNKNOWN)):
                bad = '%s is called %s' % (n, show(v))
        if bad:
            C.bad('names', '%s|%s' % (f['fn'], e['q'].split('::')[-1]), loc(f), '%s: %s' % (what, bad))
        else:
            C.instance('names', '%s (%d values)' % (what, len(vals)))
        if rt == 'char':
            folds[e['q']] = (f, vals)
    return folds


def predicates(C, F, ES):
    """is_known: true for every value but the one that stands for none"""
    for f in F.best():
        if f.get('body') is None or f.get('dep') or not f['fn'].endswith('is_known') or bare(f.get('rt', '')) != 'bool' or len(f['params']) != 1:
            continue
        e = which(ES, f['params'][0]['t'])
        if e is None:
            continue
        E = summ.Eval(F, unroll=8, inline_depth=3, budget=20000)
        try:
            vals = {c['n']: E.function(f, [('enum', '%s::%s' % (e['q'], c['n']))]).value for c in e['c']}
        except summ.Undecided as ex:
            C.undecided('predicate', '%s: %s' % (f['fn'], ex))
            continue
        bad = [n for n, v in vals.items() if v != (T.FALSE if n == '_' else T.TRUE)]
        if any(v not in (T.TRUE, T.FALSE) for v in vals.values()):
            C.undecided('predicate', f['fn'])
        elif bad:
            C.bad('predicate', f['fn'], loc(f), '%s is %s for %s' % (f['fn'], 'false' if bad[0] != '_' else 'true', bad[0]))
        else:
            C.instance('predicate', '%s (%d values)' % (f['fn'], len(vals)))


def show(v):
    return repr(chr(v)) if isinstance(v, int) and v >= 32 else '"%s"' % (v,)


def fold(F, f, par, sw, e, c, rt):
    E = summ.Eval(F, unroll=8, inline_depth=3, budget=20000)
    k = ('enum', '%s::%s' % (e['q'], c['n']))
    args = [('var', 'p%d' % i) for i in range(len(f['params']))]
    if par:
        args[par[0][0]] = k
    if rt == 'std::basic_ostream<char>':
        S = summ.State()
        r = E.function(f, args, this=('var', 'self'), state=S)
        v = r.final.st.get(args[0], E.read(args[0], r.final)) if r.final is not None else None
        return text(r.value) if not (v is not None and v != args[0]) else text(v)
    r = E.function(f, args, this=('var', 'self'))
    v = r.value
    if not par:
        v = subst_eq(v, k)
    return text(v)


def subst_eq(v, k):
    """the value with the one thing that is compared to constants taken to be k"""
    subj = set()

    def find(x):
        if isinstance(x, tuple):
            if x and x[0] == 'cmp' and x[1] == 'eq':
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    if b[0] == 'enum' and a[0] != 'enum':
                        subj.add(a)
            for y in x:
                find(y)
    find(v)
    if len(subj) != 1:
        raise summ.Undecided('subject')
    s = subj.pop()

    def rep(x):
        if x == s:
            return k
        if isinstance(x, tuple):
            x = tuple(rep(y) for y in x)
            if x and x[0] == 'cmp':
                return T.cmp({'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}.get(x[1], x[1]), x[2], x[3])
            if x and x[0] == 'ite':
                return T.ite(x[1], x[2], x[3])
        return x
    return rep(v)


def text(v):
    c = T.const(v)
    if c is not None:
        return int(c)
    if v[0] == 'str':
        return v[1]
    if v[0] == 'call' and str(v[1]).startswith('ctor:') and len(v) == 3:
        return text(v[2])
    if v[0] == 'eff' and v[1] == 'std::operator<<':
        t = text(v[-1])    # a stream after one insertion: what was inserted
        return chr(t) if isinstance(t, int) else t
    return None


def codes(C, F, ES):
    """integer or letter -> enumerator: (constant, enumerator) pairs from switch labels and equality tests"""
    seen = set()
    out = []
    for f in F.best():
        if f.get('body') is None:
            continue

        def assigned(n, depth=0):
            """enumerators given by the statements of one case"""
            for x in core.walk(n):
                if x['k'] == 'bin' and x['op'] == '=' and enumref(x['b']) is not None:
                    yield enumref(x['b'])
                elif x['k'] == 'return' and x.get('e') is not None and enumref(x['e']) is not None:
                    yield enumref(x['e'])
        for n in core.walk(f['body']):
            if n['k'] != 'switch' or which(ES, n.get('ct', '')) or (f['file'], n['l']) in seen:
                continue
            seen.add((f['file'], n['l']))
            cases, default = [], None
            cur = []
            for st in n['body'].get('c') or []:
                while st is not None and st.get('k') in ('case', 'default'):
                    if st['k'] == 'case':
                        cur.append(uncast(st['val']))
                    else:
                        cur.append(None)
                    st = st['body']
                if st is None:
                    continue
                for r in assigned(st):
                    for v in cur:
                        cases.append((v, r))
                if st.get('k') in ('break', 'return', 'throw') or any(x['k'] in ('break', 'return', 'throw') for x in core.walk(st)):
                    cur = []
            es = {bare(r['t']) for _, r in cases}
            if len(es) != 1 or len(cases) < 2:
                continue
            e = which(ES, es.pop())
            if e is None:
                continue
            out.append((f, n, e, [(v.get('v') if v is not None else None, r) for v, r in cases], bare(n['ct']) if n.get('ct') else ''))
    for f, n, e, cases, ct in out:
        sh = e['q'].split('::')[-1]
        what = '%s line %s: %s from %s' % (f['fn'], n['l'], sh, ct or 'a code')
        vals = [r['v'] for _, r in cases]
        miss = [c['n'] for c in e['c'] if c['v'] not in vals]
        bad = None
        if miss:
            bad = 'never gives %s' % ', '.join(miss)
        elif len(set(vals)) != len(vals):
            bad = 'gives %s for two codes' % [r['n'] for _, r in cases if vals.count(r['v']) > 1][0]
        elif ct != 'char':
            wrong = [(v, r['n']) for v, r in cases if v is not None and int(v) != int(r['v'])]
            if wrong:
                bad = 'turns the code %s into %s' % wrong[0]
        if bad:
            C.bad('codes', '%s|%s' % (f['fn'], sh), loc(f, n), '%s %s' % (what, bad))
        else:
            C.instance('codes', what)
    return out


def letters(C, F, ES, folds, codes):
    for f, n, e, cases, ct in codes:
        if ct != 'char' or e['q'] not in folds:
            continue
        g, names = folds[e['q']]
        what = '%s undoes %s' % (f['fn'], g['fn'])
        dec = {int(v): r['n'] for v, r in cases if v is not None}
        other = next((r['n'] for v, r in cases if v is None), None)
        bad = [(k, v) for k, v in names.items() if dec.get(v, other) != k]
        if bad:
            C.bad('letters', '%s|%s' % (f['fn'], e['q'].split('::')[-1]), loc(f, n), '%s: %s is written %s and read as %s' % (what, bad[0][0], show(bad[0][1]), dec.get(bad[0][1], other)))
        else:
            C.instance('letters', what)


def run(tier):
    C = core.Check('P14', tier, RULE)
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    ES = enums(F)
    switches(C, F, ES)
    pairs(C, F, ES)
    folds = names(C, F, ES)
    predicates(C, F, ES)
    cs = codes(C, F, ES)
    letters(C, F, ES, folds, cs)
    C.floor('switch', 40)
    C.floor('python', 5)
    C.floor('file', 3)
    C.floor('names', 8)
    C.floor('codes', 7)
    C.floor('letters', 1)
    return C.finish()
