"""P05: each comparison selector means the relation it names (value graphs of Comparer for every selector)."""
import core
import summ
import terms as T
import tval
import p04
from core import loc
from terms import num, AND, OR, NOT, cmp

RULE = ('For every enumerator of the comparison selector the constructor of Comparer<T,R> is evaluated symbolically and its call operators are evaluated on the resulting object. '
        'The scalar answer must be the combination of "approximately equal" (the graph of approx_float::scalar with the same tolerances) and a<b, a>b that the selector names; '
        'the vector answers must be the any/all combination of the scalar answers at every size and stride tried. Member functions of the arrays that take a selector must hand '
        'it and both tolerances on to Comparer.')
CMP = 'brille::cmp'


def run(tier):
    C = core.Check('P05', tier, RULE)
    F = C.facts(['d_util.cpp', 'd_array.cpp', 'd_lattice.cpp'])
    en = F.enums.get(CMP)
    if en is None:
        for k, v in F.enums.items():
            if (k if isinstance(k, str) else k[0]) == CMP:
                en = v
    vals = [e['n'] if isinstance(e, dict) else e[0] for e in (en.get('vals') or en.get('c') or [])] if en else []
    if not vals:
        raise core.Broken('enumeration brille::cmp not found')
    seeds = 600 if tier == 'thorough' else 200
    A, B, TT, RT, K = (('param', 100 + i, n) for i, n in enumerate(('a', 'b', 'Ttol', 'Rtol', 'tol')))
    NEG = {'nle', 'nge', 'neq'}
    ctors = {}
    ops = {}
    for f in F.concrete():
        if f.get('csn') == 'brille::Comparer' and f.get('body') is not None:
            tr = tuple(x.strip() for x in f['cls'][f['cls'].index('<') + 1:-1].split(','))
            if f.get('ctor') and len(f['params']) == 4 and 'cmp' in f['params'][0]['t']:
                ctors[tr] = f
            elif f['fn'] == 'operator()':
                ops.setdefault(tr, {})[len(f['params'])] = f
    scal = {tuple(f.get('targs') or [])[:2]: f for f in F.named('brille::approx_float::scalar') if len(f['params']) == 5}

    for tr, ctor in sorted(ctors.items()):
        if any('unsigned' in x for x in tr) and tr[0] != tr[1]:
            continue    # mixed signedness: the built-in < decides, see assumptions
        sf = scal.get(tr)
        if sf is None or 2 not in ops.get(tr, {}):
            C.undecided('selector', 'Comparer<%s,%s>: no scalar predicate to compare with' % tr)
            continue
        eq = summ.Eval(F, unroll=8, inline_depth=8).function(sf, [A, B, TT, RT, K]).value
        ty = {A: tr[0], B: tr[1], TT: tr[0], RT: tr[1], K: 'int'}
        lt, gt = cmp('<', A, B), cmp('<', B, A)
        want = {'lt': AND(NOT(eq), lt), 'gt': AND(NOT(eq), gt), 'le': OR(eq, lt), 'ge': OR(eq, gt), 'eq': eq, 'neq': NOT(eq),
                'nle': AND(NOT(eq), gt), 'nge': AND(NOT(eq), lt), 'le_ge': OR(eq, lt, gt)}
        for v in vals:
            who = 'Comparer<%s,%s>(%s)' % (tr + (v,))
            E = summ.Eval(F, unroll=16, inline_depth=10, budget=300000)
            try:
                r = E.function(ctor, [('enum', CMP + '::' + v), TT, RT, K])
            except (summ.Undecided, RecursionError) as e:
                C.undecided('selector', '%s: %s' % (who, e)); continue
            if r.value is not None and r.value[0] == 'throw':
                C.instance('selector', who + ' is refused by an exception')
                continue
            if v not in want:
                C.undecided('selector', '%s: a selector the specification does not know' % who); continue
            try:
                g = E.function(ops[tr][2], [A, B], state=r.final).value
            except (summ.Undecided, RecursionError) as e:
                C.undecided('selector', '%s: %s' % (who, e)); continue
            if g is None or p04.unresolved(g) or T.has(g, lambda x: x[0] == 'call' and str(x[1]).startswith('callable')):
                C.undecided('selector', who + ' not reduced'); continue
            res, why = tval.compare(g, want[v], ty, seeds=seeds, leaf=p04.near(0, ty))
            if res == 'differ':
                C.bad('selector', v, loc(ctor), '%s does not answer as the relation it names (%s)' % (who, why))
            elif res == 'same':
                C.instance('selector', '%s scalar: %s' % (who, why))
            else:
                C.undecided('selector', '%s: %s' % (who, why))
            for np_ in (3, 5):
                f = ops[tr].get(np_)
                if f is None:
                    continue
                for n in (0, 1, 2, 3):
                    for sa, sb in ((1, 1),) if np_ == 3 else ((1, 1), (2, 1), (1, 3), (0, 1)):
                        args = [num(n), ('ptr', A, T.ZERO), ('ptr', B, T.ZERO)] if np_ == 3 else [num(n), ('ptr', A, T.ZERO), num(sa), ('ptr', B, T.ZERO), num(sb)]
                        E2 = summ.Eval(F, unroll=16, inline_depth=10, budget=300000)
                        E2.lams = E.lams
                        try:
                            h = E2.function(f, args, state=r.final).value
                        except (summ.Undecided, RecursionError) as e:
                            C.undecided('vector', '%s: %s' % (who, e)); continue
                        if h is None or p04.unresolved(h) or T.has(h, lambda x: x[0] == 'call' and str(x[1]).startswith('callable')):
                            C.undecided('vector', who + ' not reduced'); continue
                        el = [T.subst(want[v], {A: ('at', A, num(i * sa)), B: ('at', B, num(i * sb))}) for i in range(n)]
                        w = OR(*el) if v in NEG else AND(*el)
                        res, why = tval.compare(h, w, ty, seeds=seeds, leaf=p04.near(0, ty))
                        what = '%s on %d elements, strides %d,%d' % (who, n, sa, sb)
                        if res == 'differ':
                            C.bad('vector', v, loc(f), '%s is not %s of the scalar answers (%s)' % (what, 'any' if v in NEG else 'all', why))
                        elif res == 'same':
                            C.instance('vector', what + ': ' + why)
                        else:
                            C.undecided('vector', what + ': ' + why)

    handed_on(C, F)
    C.floor('selector', 12)
    C.floor('vector', 30)
    C.assumptions += ['operands of mixed signedness are ordered by the built-in comparison, which is not modelled', 'finite values; vector forms at the listed sizes and strides']
    return C.finish()


def handed_on(C, F):
    """A function that receives a selector and tolerances must give both tolerances (and its selector) to the Comparer it builds."""
    for f in F.funcs.values():
        if f.get('body') is None or f.get('csn') == 'brille::Comparer' or not f['file'].startswith('/repo'.rstrip('/')) and '/src/' not in f['file']:
            continue
        ps = f['params']
        sel = [p for p in ps if core.bare(p['t']) in ('brille::cmp', 'cmp', 'const brille::cmp')]
        if not sel:
            continue
        tols = [p for p in ps if p['n'] and 'tol' in p['n'].lower()]
        ds = {p['d']: p['n'] for p in tols}
        for n in core.walk(f['body']):
            if n.get('k') == 'var' and 'Comparer<' in core.bare(n.get('t', '')) and n.get('init') or n.get('k') == 'ctor' and 'Comparer<' in core.bare(n.get('t', '')) and not (n.get('copy') or n.get('move')):
                src = n['init'] if n['k'] == 'var' else n
                if n['k'] == 'var':
                    continue    # its initialiser is visited as a ctor
                used = {m.get('d') for a in src['args'] for m in core.walk(a) if m.get('k') == 'ref'}
                if not used & {p['d'] for p in sel} and not f.get('dep'):
                    continue    # built with a fixed selector on purpose
                miss = [ds[d] for d in ds if d not in used]
                who = '%s:%s' % (f['sn'], n.get('l'))
                if miss:
                    C.bad('handed-on', '%s|%s' % (f['sn'], ','.join(miss)), loc(f, n), '%s builds a Comparer from its selector without its own %s' % (f['sn'], ', '.join(miss)))
                else:
                    C.instance('handed-on', '%s builds a Comparer with its tolerances %s' % (who, ','.join(ds.values()) or '(none received)'))
        # recursion with another selector (combined forms) must keep the tolerances too
        for n in core.walk(f['body']):
            if n.get('k') == 'call' and n.get('fn') == f['fn'] and ds and any(m.get('k') == 'ref' and m.get('dk') == 'enum' and str(m.get('q', '')).startswith(CMP) for a in n['args'] for m in core.walk(a)):
                used = {m.get('d') for a in n['args'] for m in core.walk(a) if m.get('k') == 'ref'}
                miss = [ds[d] for d in ds if d not in used]
                if miss:
                    C.bad('handed-on', '%s|combined' % f['sn'], loc(f, n), '%s answers a combined selector by calling itself without %s' % (f['sn'], ', '.join(miss)))
                else:
                    C.instance('handed-on', '%s keeps its tolerances in the combined form' % f['sn'])
