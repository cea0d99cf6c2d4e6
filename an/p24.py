"""P24: nothing is printed while the status printer is silenced (effect analysis of terminal writes under path conditions)."""
import itertools
import core
import guards
import summ
from core import loc

RULE = ('Every function that writes to the terminal does so inside the status printer, in a function documented to print, or on a path on which a verbosity argument that no library call sets is true. '
        'In the status printer every path from a function called from outside to a write passes a test that it is not silenced; the switches store what they are given, and the Python switches leave the printer in the state asked for. '
        'Each diagnostic macro, in each of the eight build configurations, writes exactly when its level is compiled in and its condition holds, and only through the status printer.')

STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr', 'stdout', 'stderr'}
CALLS = {'printf', 'puts', 'putchar', 'fprintf', 'vprintf', 'vfprintf', 'fputs', 'fputc', 'putc', 'perror', 'fwrite', 'write', 'pybind11::print'}
DOCUMENTED = {'brille::BrillouinZone::print', 'brille::PointSymmetry::print', 'brille::PrimitiveTransform::print', 'brille::assignment::Munkres::show',
              'brille::assignment::smp_pmat', 'brille::assignment::smp_pvec'}
PRINTER = 'brille::DebugPrinter'


def writes(n, opened):
    if n['k'] == 'ref' and n.get('q') in STREAMS:
        return n['q']
    if n['k'] == 'call':
        q = core.strip_t(n.get('q') or '')
        q = q[5:] if q.startswith('std::') else q
        if q in CALLS and not n.get('obj'):
            return q
    return None


def atoms_of(f):
    """value of a condition's atoms when the printer is silenced / a verbosity argument is false"""
    if (f.get('csn') or '') == PRINTER:
        def at(n):
            if n['k'] == 'mem' and n.get('n') == '_silenced':
                return True
            if n['k'] == 'call' and n.get('fn') == 'silenced' and not n.get('args'):
                return True
        return at
    return lambda n: None


def named_call(n):
    return n['k'] == 'call' and n.get('f') or n['k'] == 'ctor' and n.get('f')


def terminal(C, F):
    funcs = [f for f in F.best() if f.get('body') is not None and not core.rel(f['file']).startswith('src/logger.')]
    # calls: callee -> [(caller, node, guards)]
    calls, direct, nodes = {}, {}, {}
    byq = {}
    for f in funcs:
        byq.setdefault(f['q'], []).append(f)
        ns = guards.nodes(f)
        nodes[f['f']] = ns
        for n, g in ns:
            w = writes(n, None)
            if w:
                direct.setdefault(f['f'], []).append((n, g, w))
            if n['k'] == 'call':
                if n.get('f'):
                    calls.setdefault(n['f'], []).append((f, n, g))
                elif n.get('q') or n.get('fn'):
                    calls.setdefault(('q', n.get('q') or n.get('fn')), []).append((f, n, g))
    byid = {f['f']: f for f in funcs}

    def doc(f):
        q = core.strip_t(f['q'])
        return q in DOCUMENTED

    def boolparams(f):
        return {p['d']: i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').strip() == 'bool'}

    def sites(f):
        r = list(calls.get(f['f'], []))
        for q in {f['q'], f['sn'], f['fn']}:
            r += calls.get(('q', q), []) if f.get('dep') else []
        return r

    def quiet_param(f, i, seen=()):
        """the bool argument i of f is false in every call the library makes"""
        if (f['f'], i) in seen:
            return True
        for g, n, _ in sites(f):
            a = n.get('args') or []
            if i >= len(a):
                return False
            v = guards.value(F, g, a[i], lambda n: None)
            if v is False:
                continue
            b = a[i]
            while b is not None and b['k'] == 'cast':
                b = b['e']
            bp = boolparams(g)
            if b is not None and b['k'] == 'ref' and b.get('d') in bp and quiet_param(g, bp[b['d']], seen + ((f['f'], i),)):
                continue
            return False
        return True

    def atom(f):
        base = atoms_of(f)
        bp = boolparams(f)

        def at(n):
            v = base(n)
            if v is not None:
                return v
            if n['k'] == 'ref' and n.get('d') in bp and quiet_param(f, bp[n['d']]):
                return False
        return at

    def reachable(f, g):
        return not guards.excluded(F, f, g, atom(f))

    # functions that write without a guard, with a witness
    W = {}
    for fid, ws in direct.items():
        f = byid[fid]
        for n, g, w in ws:
            if doc(f) or reachable(f, g):
                W.setdefault(fid, (n, w, f, n))
                if not doc(f):
                    C.instance('terminal', '%s writes %s unguarded' % (f['q'], w)) if f.get('csn') == PRINTER else None
            else:
                C.instance('terminal', '%s: %s at line %s only on a guarded path' % (core.strip_t(f['q']), w, n.get('l')))
    todo = list(W)
    done = set()
    while todo:
        fid = todo.pop()
        if fid in done:
            continue
        done.add(fid)
        f = byid[fid]
        n, w, of, on = W[fid]
        name = core.strip_t(f['q'])
        ss = sites(f)
        inside = f.get('csn') == PRINTER
        if doc(f):
            C.instance('terminal', '%s is documented to print' % name)
        elif inside:
            outs = [s for s in ss if s[0].get('csn') != PRINTER]
            pub = f['fn'] in ('print', 'println')
            if outs or pub:
                where = outs[0] if outs else (f, n, None)
                C.bad('printer', name, loc(f, n), '%s writes to the terminal (%s) on a path on which the printer may be silenced%s' % (name, w, ', and is called from %s' % outs[0][0]['q'] if outs else ''))
                continue
        elif not ss:
            oname = core.strip_t(of['q'])
            C.bad('terminal', oname, loc(of, on), '%s writes to the terminal (%s) without asking whether output is silenced%s' % (oname, w, '' if oname == name else ' (reached from %s)' % name))
            continue
        for g, m, gd in ss:
            gname = core.strip_t(g['q'])
            if reachable(g, gd):
                if not doc(g) and g['f'] not in W:
                    W[g['f']] = (m, w, of, on)
                    todo.append(g['f'])
            else:
                C.instance('terminal', '%s calls %s only on a guarded path' % (gname, name))


def truth(t, env):
    k = t[0]
    if t in env:
        return env[t]
    if k == 'bool':
        return t[1]
    if k == 'not':
        return not truth(t[1], env)
    if k == 'and':
        return all(truth(x, env) for x in t[1:])
    if k == 'or':
        return any(truth(x, env) for x in t[1:])
    if k == 'ite':
        return truth(t[2] if truth(t[1], env) else t[3], env)
    if k == 'cmp':
        a, b = truth(t[2], env), truth(t[3], env)
        if t[1] == 'eq':
            return bool(a) == bool(b)
        if t[1] == 'ne':
            return bool(a) != bool(b)
        raise ValueError(t)
    if k == 'poly':
        if t == ('poly', ()):
            return False
        if t == ('poly', (((), 1),)):
            return True
    raise ValueError(t)


def switches(C, F):
    ms = {}
    for f in F.methods(PRINTER):
        ms.setdefault((f['fn'], len(f['params'])), f)
    SIL, DAT = [('fld', ('var', 'self'), m) for m in ('_silenced', 'emit_datetime')]

    def summary(f):
        E = summ.Eval(F, unroll=4, inline_depth=4)
        E.inline_val = True
        E.objects = True
        r = E.function(f, this=('var', 'self'))
        return r.value, (r.final.st if r.final else {})
    want = {('silenced', 0): ('ret', SIL, None), ('datetime', 0): ('ret', DAT, None), ('silenced', 1): ('set', SIL, 'arg'), ('datetime', 1): ('set', DAT, 'arg'),
            ('silence', 0): ('set', SIL, True), ('unsilence', 0): ('set', SIL, False), ('DebugPrinter', 1): ('set', SIL, False)}
    for key, (how, fld, to) in want.items():
        f = ms.get(key)
        name = 'DebugPrinter::%s/%d' % key
        if f is None:
            C.undecided('switch', '%s is not there' % name)
            continue
        C.instance('switch', name)
        try:
            v, st = summary(f)
            for x, y, z in itertools.product((False, True), repeat=3):
                env = {SIL: x, DAT: y}
                if f['params'] and key[0] != 'DebugPrinter':
                    env[('param', 0, f['params'][0]['n'])] = z
                after = {q: truth(st[q], env) if q in st else env[q] for q in (SIL, DAT)}
                exp = dict(env)
                if how == 'set':
                    exp[fld] = z if to == 'arg' else to
                for q in (SIL, DAT):
                    if key[0] == 'DebugPrinter' and q == DAT:
                        continue
                    if after[q] != exp[q]:
                        C.bad('switch', name, loc(f), '%s leaves %s %s when it was %s%s' % (name, q[2], after[q], env[q], ' and the argument is %s' % z if f['params'] else ''))
                if how == 'ret' and truth(v, env) != env[fld] or how == 'set' and to == 'arg' and truth(v, env) != z:
                    C.bad('switch', name, loc(f), '%s does not return the value of %s' % (name, fld[2]))
        except (ValueError, KeyError, AttributeError, summ.Thrown) as e:
            C.undecided('switch', '%s: %s' % (name, str(e)[:80]))
    # nobody else writes the switches
    own = {'silenced', 'silence', 'unsilence', 'datetime', 'DebugPrinter'}
    for f in F.methods(PRINTER, dep=True):
        C.instance('switch', 'writes of %s' % f['q'])
        for n in core.walk(f['body']) if f.get('body') else []:
            if n['k'] == 'bin' and n['op'] in guards.ASSIGN and n['a'] is not None and n['a']['k'] == 'mem' and n['a'].get('n') in ('_silenced',) and f['fn'] not in own:
                C.bad('switch', '%s writes' % core.strip_t(f['sn']), loc(f, n), '%s changes whether the printer is silenced' % f['sn'])
    for f in F.best():
        if f.get('csn') == PRINTER or f.get('body') is None or core.rel(f['file']).startswith('wrap/_debug'):
            continue
        for n in core.walk(f['body']):
            if n['k'] == 'call' and (n.get('cls') or '') == PRINTER and n.get('fn') in own and (n.get('args') or n['fn'] in ('silence', 'unsilence')):
                C.bad('switch', '%s switches' % core.strip_t(f['q']), loc(f, n), '%s changes the state of the status printer' % f['q'])


def python(C, F):
    P = ('glob', 'brille::printer')
    SIL, DAT = ('fld', P, '_silenced'), ('fld', P, 'emit_datetime')
    want = {'emit': (SIL, True), 'emit_datetime': (DAT, False)}
    for f in sorted((f for f in F.funcs.values() if f['file'].endswith('wrap/_debug.cpp')), key=lambda f: f['l']):
        for n in core.walk(f['body']):
            if n['k'] != 'call' or n.get('fn') != 'def' or not n['args'] or n['args'][0]['k'] != 'str' or n['args'][0]['s'] not in want:
                continue
            nm = n['args'][0]['s']
            fld, inv = want[nm]
            a = n['args'][1]
            while a['k'] == 'cast' or a['k'] == 'ctor' and len(a['args']) == 1:
                a = a['e'] if a['k'] == 'cast' else a['args'][0]
            if a['k'] == 'lambda':
                fn = {'params': a['params'], 'body': a['body'], 'f': 'lambda', 'q': nm, 'fn': nm, 'file': f['file'], 'l': a['l']}
            elif a['k'] in ('ref', 'un'):
                r = a['e'] if a['k'] == 'un' else a
                fn = F.funcs.get(r.get('f')) or next((g for g in F.funcs.values() if g['q'] == r.get('q')), None)
            else:
                fn = None
            if fn is None:
                C.undecided('python', '%s is bound to something else' % nm)
                continue
            what = '%s(%s)' % (nm, 'bool' if fn['params'] else '')
            C.instance('python', what)
            try:
                E = summ.Eval(F, unroll=4, inline_depth=4)
                E.inline_val = True
                r = E.function(fn)
                for x, y, z in itertools.product((False, True), repeat=3):
                    env = {SIL: x, DAT: y}
                    if fn['params']:
                        env[('param', 0, fn['params'][0]['n'])] = z
                    after = {q: truth(r.final.st[q], env) if r.final and q in r.final.st else env[q] for q in (SIL, DAT)}
                    exp = dict(env)
                    if fn['params']:
                        exp[fld] = z != inv
                    for q in (SIL, DAT):
                        if after[q] != exp[q]:
                            C.bad('python', what, loc(fn), 'brille.%s(%s) leaves the printer with %s %s when it was %s' % (nm, z if fn['params'] else '', q[2], after[q], env[q]))
                    if truth(r.value, env) != (exp[fld] != inv):
                        C.bad('python', what, loc(fn), 'brille.%s(%s) returns %s although the switch is then %s' % (nm, z if fn['params'] else '', truth(r.value, env), exp[fld] != inv))
            except (ValueError, KeyError, AttributeError, summ.Thrown) as e:
                C.undecided('python', '%s: %s' % (what, str(e)[:80]))


LEVELS = {'info': lambda s: True, 'debug': lambda s: bool(s & {'DEBUG', 'VERBOSE_DEBUG'}), 'verbose': lambda s: 'VERBOSE_DEBUG' in s, 'profile': lambda s: 'PROFILING' in s}


def macros(C):
    for n in range(4):
        for s in itertools.combinations(('DEBUG', 'PROFILING', 'VERBOSE_DEBUG'), n):
            F = core.extract(['d_diag.cpp'], s)
            conf = '+'.join(s) or 'no switches'
            for lv, on in LEVELS.items():
                for suf in ('', '_if'):
                    f = next((f for f in F.funcs.values() if f['fn'] == 'use_%s%s' % (lv, suf)), None)
                    name = '%s_update%s' % (lv, suf)
                    if f is None:
                        C.undecided('macro', name + ' is not there')
                        continue
                    C.instance('macro', '%s with %s' % (name, conf))
                    ps = {p['d']: p['n'] for p in f['params']}
                    out, other = {True: False, False: False}, None
                    full = False
                    for m, g in guards.nodes(f):
                        if m['k'] == 'call' and (m.get('cls') or '') == PRINTER and m.get('fn') in ('println', 'print'):
                            for c in (False, True):
                                if not guards.excluded(F, f, g, lambda x: c if x['k'] == 'ref' and ps.get(x.get('d')) == 'c' else None):
                                    out[c] = True
                            sub = list(core.walk(m))
                            full = full or any(x['k'] == 'str' and x['s'] == 'text' for x in sub) and any(x['k'] == 'ref' and ps.get(x.get('d')) == 'a' for x in sub)
                        elif writes(m, None):
                            other = m
                    if other is not None:
                        C.bad('macro', name, '/repo/src/debug.hpp', '%s (with %s) writes to the terminal past the status printer' % (name, conf))
                    exp = on(set(s))
                    for c in ((False, True) if suf else (True,)):
                        e = exp and c
                        if out[c] != e:
                            C.bad('macro', name, '/repo/src/debug.hpp', '%s (with %s)%s %s' % (name, conf, ' whose condition is %s' % str(c).lower() if suf else '', 'prints nothing' if e else 'prints'))
                    if exp and not full:
                        C.bad('macro', name, '/repo/src/debug.hpp', '%s (with %s) does not hand its whole message to the status printer' % (name, conf))


def messages(C, F):
    """every piece of a message is printed, in the order given, and the printer does not drop it when it is not silenced"""
    seen = set()
    for f in F.methods(PRINTER):
        if f['fn'] not in ('print', 'println', 'inner_print') or not f['params']:
            continue
        C.instance('message', f['q'])
        first = 0 if f['fn'] == 'inner_print' else 1
        rest = [p['d'] for p in f['params'][first + (1 if f['fn'] == 'inner_print' else 0):]]
        ok = None
        for n, g in guards.nodes(f):
            if n['k'] == 'call' and (n.get('cls') or '') == PRINTER and n.get('fn') in ('print', 'inner_print'):
                if any(guards.value(F, f, c, lambda x: False if x['k'] == 'mem' and x.get('n') == '_silenced' else None) is not pol for c, pol in g):
                    continue
                ds = []
                for a in n.get('args') or []:
                    rs = [x.get('d') for x in core.walk(a) if x['k'] == 'ref' and x.get('dk') == 'param']
                    ds += rs
                if ds[len(ds) - len(rest):] == rest if rest else True:
                    ok = n
        if ok is None:
            k = (f['file'], f['l'])
            if k not in seen:
                seen.add(k)
                C.bad('message', '%s/%d' % (f['sn'], f['l']), loc(f), '%s does not pass on the rest of its message when output is on' % f['q'])


def run(tier):
    C = core.Check('P24', tier, RULE)
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp', 'd_diag.cpp'] + core.all_units())
    terminal(C, F)
    switches(C, F)
    python(C, F)
    macros(C)
    messages(C, F)
    C.floor('terminal', 8)
    C.floor('switch', 7)
    C.floor('python', 4)
    C.floor('macro', 64)
    C.floor('message', 10)
    C.assumptions += ['The class `logger` of logger.hpp is used by nothing in the library and is not part of the status output.', 'Writes by pybind11, HighFive, TetGen or the C++ runtime are not considered.']
    return C.finish()
