"""P23: diagnostics never change results (two-configuration comparison after slicing away everything that only feeds diagnostics)."""
import re
import core
from core import loc, kids

RULE = ('Every translation unit is parsed with diagnostics compiled out and with each level compiled in, and with assertions compiled out. In each version the statements that only feed the diagnostic output are sliced away (messages, timers, and the variables nothing else reads); '
        'an argument of a diagnostic that changes anything else is never sliced. What remains of every function must be the same tree in all versions, and no remaining statement may depend on the state of the status printer or on a verbosity argument.')

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'stdout', 'stderr'}
PRINTF = {'__assert_fail', 'printf', 'puts', 'putchar', 'fprintf', 'fflush'}
PRINTERS = {'brille::assignment::smp_pmat', 'brille::assignment::smp_pvec'}
NONMUTATING = {'find', 'find_if', 'find_if_not', 'includes', 'is_sorted', 'accumulate', 'reduce', 'inner_product', 'count', 'count_if', 'all_of', 'any_of', 'none_of', 'max_element', 'min_element', 'minmax_element', 'equal', 'distance',
               'lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'mismatch', 'search', 'is_permutation', 'lexicographical_compare', 'adjacent_find', 'next', 'prev', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'make_pair', 'make_tuple',
               'back_inserter', 'inserter', 'make_move_iterator', 'max', 'min', 'abs', 'sqrt', 'move', 'forward'}
PURE_METHODS = {'size', 'begin', 'end', 'cbegin', 'cend', 'at', 'front', 'back', 'data', 'operator[]', 'operator()', 'get', 'find', 'count', 'to_string', 'str', 'c_str', 'length', 'empty', 'rbegin', 'rend', 'first', 'second', 'operator*', 'operator->', 'val', 'view', 'row', 'extract'}


class Slicer:
    def __init__(self, F):
        self.F = F
        self.this_memo = {}

    # -- effects -----------------------------------------------------------------------------------
    def root(self, n):
        """('var', d) of the local object an lvalue belongs to, ('diag',) for the terminal, None if it is not local"""
        while n is not None:
            k = n['k']
            if k == 'ref':
                if n.get('q') in STREAMS:
                    return ('diag',)
                d = n.get('d')
                if d in self.vars:
                    v = self.vars[d]
                    t = v.get('t', '')
                    if t.rstrip().endswith('&') and not self.ownref(v):
                        return self.root_of_ref(v)
                    return ('var', d)
                return None
            if k == 'mem':
                if n.get('arrow'):
                    return None
                n = n['e']
            elif k in ('cast',):
                n = n['e']
            elif k == 'idx':
                b = n['e']
                if '*' in (b.get('t') or '') and not re.search(r'\[\d*\]$', b.get('t') or ''):
                    s = b
                    while s['k'] == 'cast':
                        s = s['e']
                    if not re.search(r'\[', s.get('t') or ''):
                        return None
                n = b
            elif k == 'call' and n.get('opr') in ('[]', '()', '<<', '=', '+=', '*') and (n.get('obj') or n.get('args')):
                n = n['obj'] if n.get('obj') is not None else n['args'][0]
            elif k == 'call' and n.get('obj') is not None and n.get('fn') in ('at', 'front', 'back', 'append', 'insert', 'begin', 'end'):
                n = n['obj']
            elif k in ('ctor', 'init', 'int', 'str', 'float'):
                return ('tmp',)
            elif k == 'call':
                return ('tmp',) if not (n.get('t') or '').rstrip().endswith(('&', '*')) and not n.get('lv') else None
            else:
                return None
        return None

    def ownref(self, v):
        return v.get('t', '').rstrip().endswith('&&')

    def root_of_ref(self, v):
        i = v.get('init')
        return self.root(i) if i is not None else (('var', v['d']) if v.get('loop') else None)

    def this_pure(self, f, seen=()):
        """the method changes nothing of its object"""
        if f is None:
            return False
        if f.get('const'):
            return True
        if f['f'] in self.this_memo:
            return self.this_memo[f['f']]
        if f['f'] in seen or f.get('body') is None:
            return f['f'] in seen
        ok = True
        for n in core.walk(f['body']):
            tgt = None
            if n['k'] == 'bin' and n['op'] in ASSIGN:
                tgt = n['a']
            elif n['k'] == 'un' and n['op'] in ('++', '--'):
                tgt = n['e']
            elif n['k'] == 'call' and n.get('obj') is not None and not n.get('const'):
                g = self.F.funcs.get(n.get('f'))
                if not (n.get('fn') in PURE_METHODS or g is not None and self.this_pure(g, seen + (f['f'],))):
                    tgt = n['obj']
            if tgt is not None:
                while tgt is not None and tgt['k'] in ('mem', 'idx', 'cast') and not (tgt['k'] == 'mem' and tgt['e']['k'] == 'this'):
                    tgt = tgt['e']
                if tgt is not None and tgt['k'] in ('mem', 'this'):
                    ok = False
        self.this_memo[f['f']] = ok
        return ok

    def effects(self, n):
        """roots written by an expression; None stands for something not local"""
        out = set()
        for x in core.walk(n, into_lambda=False):
            k = x['k']
            if k == 'bin' and x['op'] in ASSIGN:
                out.add(self.root(x['a']))
            elif k == 'un' and x['op'] in ('++', '--'):
                out.add(self.root(x['e']))
            elif k in ('new', 'delete', 'throw'):
                out.add(None)
            elif k in ('call', 'ctor'):
                out |= self.call(x)
        return out

    def call(self, x):
        out = set()
        q = core.strip_t(x.get('q') or '')
        bare = q[5:] if q.startswith('std::') else q
        obj = x.get('obj')
        o = obj
        while o is not None and o['k'] == 'cast':
            o = o['e']
        if o is not None and o['k'] == 'ref' and o.get('q') == 'brille::printer':
            if x.get('fn') in ('print', 'println', 'silenced', 'datetime') and (x['fn'] in ('print', 'println') or not x.get('args')):
                return {('diag',)}
            return {None}
        if bare in PRINTF or q in PRINTERS:
            return {('diag',)}
        f = self.F.funcs.get(x.get('f'))
        args = x.get('args') or []
        pts = x.get('pt') or ([p['t'] for p in f['params']] if f else [])
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ''
            if a is None:
                continue
            if core.is_nonconst_ref(t) and not t.rstrip().endswith('&&'):
                if x.get('opr') in ('[]', '()', '->', '*') or x.get('fn') in PURE_METHODS and not x.get('opr'):
                    continue
                out.add(self.root(a))
            elif core.is_nonconst_ptr(t):
                s = a
                while s['k'] == 'cast':
                    s = s['e']
                out.add(self.root(s['e'] if s['k'] == 'un' and s['op'] == '&' else s) if s['k'] not in ('str', 'nullptr') else ('tmp',))
            elif t.rstrip().endswith('&&') and 'std::move' in str(a.get('q') or ''):
                out.add(self.root((a.get('args') or [None])[0]))
        if x['k'] == 'call' and obj is None and q.startswith('std::') and not x.get('opr') and bare.split('::')[-1] not in NONMUTATING:
            # an algorithm handed iterators or pointers may write through them
            for a in args:
                s = a
                while s is not None and (s['k'] == 'cast' or s['k'] == 'ctor' and len(s['args']) == 1 or s['k'] == 'bin' and s['op'] in '+-'):
                    s = s['e'] if s['k'] == 'cast' else s['a'] if s['k'] == 'bin' else s['args'][0]
                if s is not None and s['k'] == 'call' and s.get('opr') in ('+', '-'):
                    s = s.get('obj') or s['args'][0]
                if s is not None and s['k'] == 'call' and s.get('fn') in ('begin', 'end', 'rbegin', 'rend', 'data', 'back_inserter', 'inserter', 'front_inserter'):
                    out.add(self.root(s['obj'] if s.get('obj') is not None else s['args'][0]))
        if x['k'] == 'call' and obj is not None and not x.get('const'):
            if x.get('fn') in PURE_METHODS or x.get('opr') in ('[]', '()', '*', '->', '==', '!=', '<', '>', '+', '-', '<=', '>='):
                pass
            elif f is not None and self.this_pure(f):
                pass
            elif not x.get('f') and not x.get('q'):
                # a call that cannot be resolved: by its name
                if not re.match(r'^(get_|is_|has_|to_|num|max|min|sum|norm|volume|type|lattice|all|any|index|string_repr|list_repr)', x.get('fn') or '') and x.get('fn'):
                    out.add(self.root(obj))
            else:
                out.add(self.root(obj))
        if x['k'] == 'call' and x.get('opr') in ASSIGN | {'<<', '>>', '++', '--'} and args:
            t = pts[0] if pts else ''
            if obj is None and (core.is_nonconst_ref(t) or not pts):
                out.add(self.root(args[0]))
        if f is not None and obj is None and self.global_write(f):
            out.add(None)
        return out

    def global_write(self, f, depth=0, seen=None):
        seen = seen if seen is not None else set()
        if f['f'] in seen or f.get('body') is None or depth > 4:
            return False
        seen.add(f['f'])
        for n in core.walk(f['body']):
            t = n['a'] if n['k'] == 'bin' and n['op'] in ASSIGN else n['e'] if n['k'] == 'un' and n['op'] in ('++', '--') else None
            while t is not None and t['k'] in ('mem', 'idx', 'cast'):
                t = t['e']
            if t is not None and t['k'] == 'ref' and t.get('dk') in ('global', 'static', 'gvar') and t.get('q') != 'brille::printer':
                return True
            if n['k'] == 'var' and n.get('static'):
                return True
            if n['k'] == 'call' and n.get('f') and n.get('obj') is None:
                g = self.F.funcs.get(n['f'])
                if g is not None and self.global_write(g, depth + 1, seen):
                    return True
        return False

    # -- slicing -----------------------------------------------------------------------------------
    def removable(self, s, D, loop=False):
        if s is None:
            return True
        k = s.get('k')
        if k in ('null',):
            return True
        if k == 'block':
            return all(self.removable(c, D, loop) for c in s['c'])
        if k == 'decl':
            return all(self.removable(c, D, loop) for c in s['c'])
        if k == 'var':
            if s.get('static'):
                return False
            if s['d'] not in D:
                return False
            return s.get('init') is None or self.effects(s['init']) <= {('var', d) for d in D} | {('diag',), ('tmp',)}
        if k in ('return', 'throw', 'omp', 'try', 'goto', 'label'):
            return False
        if k in ('break', 'continue'):
            return loop
        if k == 'if':
            return self.removable(s.get('init'), D) and self.removable(s.get('cvar'), D) and self.quiet(s.get('cond'), D) and self.removable(s['then'], D, loop) and self.removable(s.get('else'), D, loop)
        if k in ('for', 'while', 'do', 'forrange', 'switch', 'case', 'default'):
            for key, v in s.items():
                if isinstance(v, dict) and 'k' in v:
                    if v['k'] in ('block', 'decl', 'var', 'if', 'for', 'while', 'forrange', 'null', 'do', 'return', 'break', 'continue', 'throw', 'switch', 'case', 'default', 'omp', 'try'):
                        if not self.removable(v, D, True):
                            return False
                    elif not self.quiet(v, D):
                        return False
                elif isinstance(v, list):
                    for c in v:
                        if isinstance(c, dict) and 'k' in c and not self.removable(c, D, True):
                            return False
            return True
        return self.quiet(s, D)

    def quiet(self, e, D):
        if e is None:
            return True
        return self.effects(e) <= {('var', d) for d in D} | {('diag',), ('tmp',)}

    STM = ('then', 'else', 'body')

    def cut(self, s, D):
        """the statement without its removable parts"""
        if s is None or 'k' not in s:
            return s
        k = s['k']
        if k == 'block':
            c = [self.cut(x, D) for x in s['c'] if not self.removable(x, D)]
            return dict(s, c=c)
        if k == 'decl':
            return dict(s, c=[self.lambdas(x, D) for x in s['c'] if not self.removable(x, D)])
        if k == 'lambda':
            return dict(self.lambdas(s, D, True), body=self.cut(s['body'], D)) if s.get('body') else s
        if k in ('if', 'for', 'while', 'do', 'forrange', 'switch', 'case', 'default', 'omp', 'try', 'label'):
            r = {}
            for key, v in s.items():
                if isinstance(v, dict) and 'k' in v and key not in ('cond', 'init', 'inc', 'cvar', 'range', 'var'):
                    if self.removable(v, D) and v['k'] != 'var' and key in ('then', 'else', 'body'):
                        r[key] = None if key == 'else' else {'k': 'block', 'c': []}
                    else:
                        r[key] = self.cut(v, D)
                elif isinstance(v, list) and k == 'omp':
                    r[key] = [c for c in v if not (isinstance(c, dict) and c.get('n') in ('shared', 'default'))]
                elif isinstance(v, list):
                    r[key] = [self.cut(c, D) if isinstance(c, dict) and 'k' in c else c for c in v]
                else:
                    r[key] = v
            return r
        return self.lambdas(s, D)

    def lambdas(self, s, D, inside=False):
        """the expression with the bodies of the closures in it sliced"""
        if not any(x['k'] == 'lambda' for x in core.walk(s)):
            return s
        r = {}
        for key, v in s.items():
            if inside and key == 'body':
                r[key] = v
            elif isinstance(v, dict):
                r[key] = self.cut(v, D) if v.get('k') == 'lambda' else self.lambdas(v, D)
            elif isinstance(v, list):
                r[key] = [(self.cut(x, D) if x.get('k') == 'lambda' else self.lambdas(x, D)) if isinstance(x, dict) else x for x in v]
            else:
                r[key] = v
        return r

    def slice(self, f):
        self.f = f
        self.vars = {}
        for n in core.walk(f['body'], into_lambda=True):
            if n['k'] == 'var':
                self.vars[n['d']] = n
            if n['k'] == 'forrange':
                v = n.get('var')
                if isinstance(v, dict) and 'd' in v:
                    self.vars[v['d']] = dict(v, loop=True)
        for p in f['params']:
            if not p['t'].rstrip().endswith(('&', '*')):
                self.vars[p['d']] = dict(p)
        D = set(self.vars)
        while True:
            body = self.cut(f['body'], D) if not self.removable(f['body'], D) else dict(f['body'], c=[])
            used = set()
            for n in core.walk(body):
                if n['k'] == 'ref' and n.get('d') in D:
                    used.add(n['d'])
            if not used:
                break
            D -= used
        return body


def canon(n, ids):
    """tree without positions, names of variables replaced by the order in which they appear"""
    if isinstance(n, list):
        return [canon(x, ids) for x in n]
    if not isinstance(n, dict):
        return n
    if n.get('k') == 'block' and len(n['c']) == 1 and False:
        return canon(n['c'][0], ids)
    r = {}
    for k in sorted(n):
        if k in ('l', 'le', 'pl', 'unit', 'ds', 'specs', 'caps'):
            continue
        if k in ('d', 'of'):
            r[k] = ids.setdefault(n[k], len(ids))
        else:
            r[k] = canon(n[k], ids)
    return r


def tidy(n):
    """single statements and blocks of one are the same; missing and empty branches are the same"""
    if isinstance(n, list):
        return [tidy(x) for x in n]
    if not isinstance(n, dict):
        return n
    n = {k: tidy(v) for k, v in n.items()}
    for k in ('then', 'else', 'body'):
        v = n.get(k)
        if isinstance(v, dict) and v.get('k') not in ('block', None):
            n[k] = {'k': 'block', 'c': [v] if v['k'] != 'null' else []}
    e = n.get('else')
    if 'else' in n and (e is None or isinstance(e, dict) and e.get('k') == 'block' and not e['c']):
        del n['else']
    return n


def first_diff(a, b, line=None):
    """(line in a, line in b) of the first difference of two tidied trees"""
    if type(a) is not type(b):
        return (a if isinstance(a, dict) else {}), (b if isinstance(b, dict) else {})
    if isinstance(a, list):
        for x, y in zip(a, b):
            d = first_diff(x, y)
            if d is not None:
                return d
        if len(a) != len(b):
            r = (a[len(b)] if len(a) > len(b) else {}), (b[len(a)] if len(b) > len(a) else {})
            return tuple(x if isinstance(x, dict) else {} for x in r)
        return None
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k in ('l', 'le', 'pl', 'unit', 'ds', 'd', 'of', 'specs', 'caps'):
                continue
            if k not in a or k not in b:
                return a, b
            d = first_diff(a[k], b[k])
            if d is not None:
                x, y = d
                return (x if x.get('l') or x.get('k') == 'block' and x.get('c') else a), (y if y.get('l') else b)
        return None
    return None if a == b else ({}, {})


CONFIGS = [('DEBUG', 'NDEBUG', 'PROFILING', 'VERBOSE_DEBUG'), ('DEBUG',), ('PROFILING',), ('NDEBUG',), ('VERBOSE_DEBUG',)]
UNITS = ['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp']


def skipped(f):
    return f.get('body') is None or (f.get('csn') or '') == 'brille::DebugPrinter' or re.search(r'/(debug\.(hpp|cpp)|_debug\.cpp|logger\.(hpp|cpp))$', f['file'])


def run(tier):
    C = core.Check('P23', tier, RULE)
    units = UNITS + core.all_units()
    F = C.facts(units)
    base = {}
    S = Slicer(F)
    for fid, f in F.funcs.items():
        if skipped(f):
            continue
        base[fid] = tidy(S.slice(f))
        C.instance('sliced', f['q'])
        # the state of the printer and verbosity arguments only reach diagnostics
        bools = {p['d']: p['n'] for p in f['params'] if p['t'].replace('const ', '').strip() == 'bool' and re.match(r'^(verbose|verbosity|debug|quiet|silent|print)$', p['n'])}
        for n in core.walk(base[fid]):
            if n['k'] == 'ref' and n.get('q') == 'brille::printer':
                k = (f['file'], f['l'])
                C.bad('printer', core.strip_t(f['q']), loc(f, n), '%s decides something that is not diagnostic output by the state of the status printer, or a diagnostic it prints changes something' % core.strip_t(f['q']))
            elif n['k'] in ('if', 'while', 'cond') and bools:
                c = n.get('cond') if n['k'] != 'cond' else n.get('c')
                for x in core.walk(c) if c else []:
                    if x['k'] == 'ref' and x.get('d') in bools:
                        C.bad('verbosity', core.strip_t(f['q']), loc(f, n), '%s does something other than print depending on its argument %s' % (core.strip_t(f['q']), bools[x['d']]))
    errs = set(re.sub(r'^/tmp/[^/]*/', '', e) for e in getattr(F, 'errors', []))
    for conf in CONFIGS if tier == 'thorough' else CONFIGS[:1]:
        G = core.extract(units, conf)
        name = '+'.join(conf)
        for e in sorted(set(getattr(G, 'errors', [])) - set(getattr(F, 'errors', []))):
            m = re.match(r'(.*?):(\d+):\d+: error: (.*)', e)
            if m:
                C.bad('builds', '%s|%s' % (core.rel(m.group(1)), m.group(3)[:60]), '%s:%s' % (core.rel(m.group(1)), m.group(2)), 'with %s the code does not compile: %s' % (name, m.group(3)[:120]))
        T = Slicer(G)
        for fid, f in F.funcs.items():
            if fid not in base:
                continue
            g = G.funcs.get(fid)
            if g is None or g.get('body') is None:
                continue
            C.instance('compared with ' + name, f['q'])
            t = tidy(T.slice(g))
            if canon(base[fid], {}) == canon(t, {}):
                continue
            x, y = first_diff(base[fid], t) or ({}, {})
            C.bad('same', '%s' % core.strip_t(f['q']), loc(g, y if y.get('l') else x if x.get('l') else g), '%s does something else when built with %s: %s' % (
                core.strip_t(f['q']), name, ('%s instead of %s' % (core.pp(y)[:70] if y.get('k') else 'nothing', core.pp(x)[:70] if x.get('k') else 'nothing'))))
    C.floor('sliced', 1500)
    C.assumptions += ['An exception thrown while a diagnostic message is put together is not considered.', 'Calls that cannot be resolved in template definitions are judged by the instantiations.']
    return C.finish()
