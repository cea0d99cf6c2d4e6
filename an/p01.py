"""P01: parallel regions never let two threads conflict on shared data (effect analysis of OpenMP regions)."""
import re
import core
from core import Check, walk, loc

HANDLE = re.compile(r'^(const )?(class |struct )?(brille::)?(lattice::)?(Array2?|LVec|LDVec|LQVec|bArray|ArrayIt|Array2It|SubIt|SubIt2|BroadcastIt2?)<|^std::shared_ptr<')
ARRAY = re.compile(r'^(brille::)?(lattice::)?(Array2?|LVec|bArray)(<|$)')
SKIP_T = re.compile(r'(^|[ :<])(mutex|shared_mutex|recursive_mutex|atomic(<|$)|atomic_\w+|Stopwatch|DebugPrinter)')
LOCKT = re.compile(r'(unique_lock|lock_guard|scoped_lock|shared_lock)')
ALGO_W = {'sort': (0,), 'stable_sort': (0,), 'fill': (0,), 'fill_n': (0,), 'iota': (0,), 'generate': (0,), 'reverse': (0,), 'rotate': (0,), 'unique': (0,), 'remove': (0,), 'remove_if': (0,), 'replace': (0,),
          'copy': (2,), 'copy_n': (2,), 'transform': (2, 3), 'move': (2,), 'partial_sum': (2,), 'swap': (0, 1), 'iter_swap': (0, 1), 'swap_ranges': (0, 2), 'nth_element': (0,), 'partition': (0,), 'memcpy': (0,), 'memset': (0,), 'getline': (0, 1), 'advance': (0,), 'set_union': (4,), 'set_intersection': (4,), 'set_difference': (4,), 'next_permutation': (0,), 'inplace_merge': (0,)}
ACCESS = {'operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'front', 'back', 'find', 'lower_bound', 'upper_bound', 'get', 'value', 'operator*', 'operator->', 'c_str', 'real', 'imag', 'equal_range', 'count', 'contains'}
STRUCT = {'size', 'empty', 'capacity', 'max_size', 'numel', 'ndim', 'shape', 'stride', 'use_count', 'load', 'is_contiguous', 'is_row_ordered', 'type', 'lattice'}
ROWS = {'ptr', 'val', 'view', 'operator[]', 'operator()', 'extract', 'slice', 'data', 'at', 'set', 'row'}
DIAG = re.compile(r'DebugPrinter|^brille::printer$|^std::(cout|cerr|clog)$')


INT = re.compile(r'^(const )?(unsigned|int|long|size_t|short|std::size_t|brille::ind_t|ind_t|uint|unsigned int|unsigned long|int64_t|uint64_t)\b')


class Place:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path[:6])

    def add(self, step):
        return Place(self.root, self.path + (step,))

    def key(self):
        return (self.root, self.path)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()


class Val:
    """pl: storage the value designates or refers to; aff: (variable, a, b) for a*variable+b; lam: a lambda with its frame"""
    __slots__ = ('pl', 'aff', 'lam')

    def __init__(self, pl=(), aff=None, lam=None):
        self.pl, self.aff, self.lam = frozenset(pl), aff, lam

    def step(self, s):
        return Val({p.add(s) for p in self.pl})

    def join(self, o):
        return Val(self.pl | o.pl, self.aff if self.aff == o.aff else None, self.lam or o.lam)


NONE = Val()


class Eff:
    __slots__ = ('mode', 'place', 'locks', 'l', 'file', 'via', 'phase')

    def __init__(self, mode, place, locks, l, file, via='', phase=0):
        self.mode, self.place, self.locks, self.l, self.file, self.via, self.phase = mode, place, locks, l, file, via, phase

    def key(self):
        return (self.mode, self.place.key(), self.locks, self.l, self.file)


class Summary:
    def __init__(self):
        self.effs, self.ret, self.unknown = {}, NONE, set()


def bare(n):
    while n is not None and n.get('k') in ('cast', 'paren', 'init') and (n.get('e') is not None or n.get('k') == 'init' and len(n.get('c') or []) == 1):
        n = n['e'] if n.get('e') is not None else n['c'][0]
    return n


def strip(q):
    d, o = 0, ''
    for c in q:
        d += c == '<'
        if not d: o += c
        d -= c == '>'
    return o


def is_ref(t):
    return (t or '').rstrip().endswith('&')


def nonconst_ref(t):
    t = (t or '').strip()
    if t.endswith('&&'):
        return False
    if t.endswith('&'):
        return not re.match(r'^const\b', t) and not re.search(r'\bconst ?&$', t)
    if t.endswith('*') or t.endswith('* const') or t.endswith('*const'):
        return not re.match(r'^const\b', t)
    return False


def pointer(t):
    t = re.sub(r'\bconst$', '', (t or '').strip()).strip()
    return t.endswith('*') or bool(re.search(r'iterator|_Rb_tree|_Bit_reference', t))


class Walk:
    def __init__(self, P, f, summ, depth):
        self.P, self.F, self.f, self.S, self.depth = P, P.F, f, summ, depth
        self.env, self.locks = {}, ()
        self.thisv = Val({Place(('this',))})
        self.shared = None            # set inside a region: declaration ids that are private there
        self.phase = 0
        self.live = True

    # ---- effects
    def eff(self, mode, v, n):
        if not self.live:
            return
        for p in v.pl:
            if p.root[0] == 'priv':
                continue
            e = Eff(mode, p, self.locks, n.get('l') or 0, self.f.get('file') or '', '', self.phase)
            self.S.effs.setdefault(e.key() + (self.phase,), e)

    # ---- statements
    def st(self, s):
        if s is None:
            return
        k = s.get('k')
        if k == 'block':
            old = self.locks
            for c in s['c']:
                self.st(c)
            self.locks = old
        elif k == 'decl':
            for v in s['c']:
                if v.get('k') == 'var':
                    self.var(v)
        elif k == 'if':
            if s.get('init'): self.st(s['init'])
            if s.get('cvar'): self.var(s['cvar'])
            self.ev(s['cond'])
            old = self.locks
            self.st(s['then']); self.locks = old
            self.st(s.get('else')); self.locks = old
        elif k in ('for', 'while', 'do', 'forrange'):
            self.loop(s)
        elif k == 'switch':
            self.ev(s.get('cond') or s.get('e'))
            self.st(s['body'])
        elif k in ('case', 'default'):
            self.st(s.get('body'))
        elif k == 'return':
            if s.get('e') is not None:
                v = self.ev(s['e'], lv=is_ref(self.f.get('rt')))
                self.S.ret = Val(self.S.ret.pl | v.pl, v.aff if not self.S.ret.pl and self.S.ret.aff in (None, v.aff) else None)
        elif k == 'try':
            self.st(s.get('body'))
            for h in s.get('handlers') or []:
                self.st(h.get('body') if isinstance(h, dict) and h.get('k') != 'block' else h)
        elif k == 'omp':
            self.omp(s)
        elif k in ('break', 'continue', 'null'):
            pass
        else:
            self.ev(s)

    def loop(self, s):
        k = s['k']
        old = self.locks
        if k == 'for' and s.get('init'):
            self.st(s['init'])
        for d in self.assigned(s):
            if d in self.env and self.env[d].aff is not None:
                self.env[d] = Val(self.env[d].pl, None, self.env[d].lam)
        if k == 'forrange':
            r = s.get('range') or s.get('beg')
            c = self.ev(r, lv=True)
            self.eff('S', c, s)
            v = s['var']
            el = c.step(('e', None))
            if v.get('bind'):
                if not is_ref(v.get('t')):
                    self.eff('R', el, s); el = NONE
                for x in v['bind'] if isinstance(v['bind'], list) else []:
                    if isinstance(x, dict) and 'd' in x:
                        self.env[x['d']] = el
            elif is_ref(v.get('t')) or pointer(v.get('t')) or HANDLE.match(v.get('t') or ''):
                self.env[v['d']] = el
            else:
                self.eff('R', el, s)
                self.env[v['d']] = NONE
            self.st(s['body'])
        else:
            for _ in (0, 1):
                if s.get('cond'):
                    self.ev(s['cond'])
                self.st(s['body'])
                if k == 'for' and s.get('inc'):
                    self.ev(s['inc'])
                if not self.assigned(s) & {d for d, v in self.env.items() if v.pl}:
                    break
        self.locks = old

    def assigned(self, s):
        out = set()
        for n in walk(s):
            if n.get('k') == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                t = bare(n['a'])
            elif n.get('k') == 'un' and n['op'] in ('++', '--'):
                t = bare(n['e'])
            elif n.get('k') == 'call' and n.get('opr') and (n['opr'] == '=' or n['opr'] in ('+=', '-=', '++', '--')) and n.get('args'):
                t = bare(n['args'][0])
            else:
                continue
            if t is not None and t.get('k') == 'ref' and 'd' in t:
                out.add(t['d'])
        return out

    def var(self, v):
        t = v.get('t') or ''
        i = v.get('init')
        if v.get('bind'):
            c = self.ev(i, lv=True) if i is not None else NONE
            if not is_ref(t):
                self.eff('R', c, v)
            for j, x in enumerate(v['bind'] if isinstance(v['bind'], list) else []):
                if isinstance(x, dict) and 'd' in x:
                    self.env[x['d']] = c.step(('f', str(j))) if is_ref(t) else Val(c.pl)
            return
        if v.get('static'):
            if not re.match(r'^(const|constexpr)\b', t) and not SKIP_T.search(t):
                self.env[v['d']] = Val({Place(('s', v['d'], v['n'], self.f['q']))})
            return
        if LOCKT.search(t) or any(LOCKT.search(x.get('cls') or '') for x in walk(i or {}) if x.get('k') == 'ctor'):
            a = bare(i)
            args = (a.get('args') or []) if a is not None and a.get('k') == 'ctor' else [a] if a is not None else []
            ls = tuple(sorted({'%s' % (p.key(),) for x in args for p in self.ev(x, lv=True).pl}))
            self.locks = self.locks + ls
            self.env[v['d']] = Val((), None, None)
            self.lockvars[v['d']] = ls
            return
        lam = bare(i)
        if lam is not None and lam.get('k') == 'lambda':
            self.env[v['d']] = Val((), None, (lam, self.env))
            return
        al = is_ref(t) or pointer(t) or HANDLE.match(t)
        if i is None:
            self.env[v['d']] = NONE
            return
        val = self.ev(i, lv=bool(al))
        if al:
            if ARRAY.match(re.sub('^const ', '', t)) and not is_ref(t):
                self.eff('R', self.handle(val), v)
                val = self.elements(val)
            self.env[v['d']] = val
        else:
            self.env[v['d']] = Val((), val.aff, val.lam)

    lockvars = {}

    # ---- OpenMP
    def omp(self, s):
        d = s['dir']
        if d.startswith('critical') or d == 'atomic' or d in ('master', 'single', 'masked'):
            old = self.locks
            self.locks = old + ('omp ' + d + ' ' + (s.get('name') or ''),)
            self.st(s['body'])
            self.locks = old
            return
        if d in ('for', 'for simd') and self.shared is not None:
            nowait = any(c['n'] == 'nowait' for c in s.get('clauses') or [])
            self.region_loop(s)
            if not nowait:
                self.phase += 1
            return
        if d == 'barrier':
            self.phase += 1
            return
        if d.startswith('parallel') and self.shared is None and self.P.regions is not None:
            self.P.region(self, s)
            return
        self.st(s.get('body'))

    def region_loop(self, s):
        for c in s.get('clauses') or []:
            if c['n'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                for v in c['vars']:
                    self.env[v['d']] = Val({Place(('priv', v['d']))}, self.env.get(v['d'], NONE).aff if c['n'] == 'firstprivate' else None)
                    self.private.add(v['d'])
        b = s['body']
        while b.get('k') == 'block' and len(b['c']) == 1:
            b = b['c'][0]
        if b.get('k') != 'for':
            self.st(b)
            return
        iv = None
        if b.get('init') and b['init'].get('k') == 'decl':
            v = b['init']['c'][0]
            self.ev(v['init'])
            iv = v['d']
        else:
            for x in walk(b.get('init') or {}):
                if x.get('k') == 'bin' and x['op'] == '=':
                    iv = bare(x['a']).get('d')
        self.private.add(iv)
        self.env[iv] = Val((), (('it', iv), 1, 0))
        if b.get('cond'):
            self.ev(b['cond'])
        self.st(b['body'])

    # ---- expressions
    def ev(self, n, lv=False):
        if n is None:
            return NONE
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            for c in n.values():
                if isinstance(c, dict) and 'k' in c:
                    self.ev(c)
                elif isinstance(c, list):
                    for x in c:
                        if isinstance(x, dict) and 'k' in x:
                            self.ev(x)
            return NONE
        return m(n, lv)

    def load(self, v, n, lv):
        if not lv and not pointer(n.get('t')) and not HANDLE.match(n.get('t') or ''):
            self.eff('R', v, n)
            aff = v.aff
            if len(v.pl) == 1 and INT.match(n.get('t') or ''):
                p = next(iter(v.pl))
                es = [x for x in p.path if x[0] == 'e']
                if len(es) == 1 and es[0][1] is not None and es[0][1][0] != 'c' and es[0][1][1]:
                    # 'the element of that list at that position'
                    i = p.path.index(es[0])
                    aff = (('list', (p.root, p.path[:i] + p.path[i + 1:]), es[0][1]), 1, 0)
            return Val((), aff, v.lam)
        return v

    def e_int(self, n, lv):
        return Val((), ('c', 0, int(n['v'])))

    def e_paren(self, n, lv): return self.ev(n['e'], lv)

    def e_cast(self, n, lv):
        if n.get('v') is not None and re.match(r'^-?\d+$', str(n['v'])):
            return Val((), ('c', 0, int(n['v'])))
        return self.ev(n['e'], lv)

    def e_init(self, n, lv):
        if len(n.get('c') or []) == 1:
            return self.ev(n['c'][0], lv)
        out = NONE
        for c in n.get('c') or []:
            out = out.join(self.ev(c))
        return Val(out.pl, None)

    def e_this(self, n, lv): return self.thisv

    def e_ref(self, n, lv):
        dk = n.get('dk')
        if dk in ('enum', 'func'):
            return NONE
        t = n.get('t') or ''
        if dk == 'global':
            q = n.get('q') or n.get('n')
            if DIAG.search(q) or re.match(r'^(const|constexpr)\b', t) or q.startswith('std::'):
                return NONE
            g = self.P.gv.get(q)
            if g is not None and (g.get('const') or re.match(r'^(const|constexpr)\b', g.get('t') or '')):
                return NONE
            return self.load(Val({Place(('g', q))}), n, lv)
        d = n.get('d')
        if d in self.env:
            v = self.env[d]
            if v.pl:
                return self.load(v, n, lv)
            return v
        if dk in ('local', 'param', 'binding') and self.shared is not None and d not in self.private:
            if SKIP_T.search(t) and 'mutex' not in t:
                return NONE
            return self.load(Val({Place(('l', d, n.get('n')))}), n, lv)
        return NONE

    def e_mem(self, n, lv):
        b = self.ev(n['e'], lv=True)
        t = n.get('t') or ''
        if SKIP_T.search(t) and 'mutex' not in t:
            return NONE
        return self.load(b.step(('f', n['n'])), n, lv)

    EL, HD = ('f', '@el'), ('f', '@h')

    def elements(self, v):
        """the elements an array refers to, which its copies share; the array object itself is the other part"""
        return Val({p if self.EL in p.path or self.HD in p.path else p.add(self.EL) for p in v.pl}, None, v.lam)

    def handle(self, v):
        return Val({p.add(self.HD) for p in v.pl if self.EL not in p.path and self.HD not in p.path})

    def e_idx(self, n, lv):
        b = self.ev(n['e'], lv=True)
        i = self.ev(n['i'])
        # a row chosen by the base stays the element that matters
        return self.load(b.step(('e', i.aff)), n, lv)

    def e_un(self, n, lv):
        op = n['op']
        if op in ('++', '--'):
            v = self.ev(n['e'], lv=True)
            b = bare(n['e'])
            if pointer(n.get('t')) and b.get('k') == 'ref' and b.get('d') in self.env:
                self.env[b['d']] = Val({Place(p.root, p.path[:-1] + (('e', None),)) if p.path and p.path[-1][0] == 'e' and p.path[-1][1] is None else p for p in v.pl})
                return self.env[b['d']]
            self.eff('R', v, n); self.eff('W', v, n)
            return Val(v.pl if lv else ())
        if op == '*':
            v = self.ev(n['e'], lv=True)
            return self.load(v, n, lv)
        if op == '&':
            return self.ev(n['e'], lv=True)
        v = self.ev(n['e'])
        if op == '-' and v.aff:
            return Val((), (v.aff[0], -v.aff[1], -v.aff[2]))
        if op == '+':
            return v
        return NONE

    def e_bin(self, n, lv):
        op = n['op']
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            t = bare(n['a'])
            rv = self.ev(n['b'], lv=bool(pointer(n.get('t')) or HANDLE.match(n.get('t') or '')))
            if pointer(n['a'].get('t')) and t.get('k') == 'ref' and t.get('d') in self.env and t.get('dk') == 'local' and t['d'] not in self.P_outer():
                if op == '=':
                    self.env[t['d']] = self.env[t['d']].join(rv)
                return self.env[t['d']]
            v = self.ev(n['a'], lv=True)
            if op != '=':
                self.eff('R', v, n)
            if t.get('k') == 'ref' and t.get('d') in self.env and not v.pl:
                self.env[t['d']] = Val((), rv.aff if op == '=' else None, rv.lam)
            self.eff('W', v, n)
            return Val(v.pl if lv else (), rv.aff if op == '=' else None)
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'], lv)
        ptr = pointer(n.get('t'))
        a, b = self.ev(n['a'], lv=ptr), self.ev(n['b'], lv=ptr)
        if ptr:
            p = a if a.pl else b
            i = b if a.pl else a
            return Val({Place(x.root, x.path) if self.rowed(x) else x.add(('e', (('off',) + i.aff) if False else i.aff)) if op in '+-' else x for x in p.pl})
        return Val((), self.arith(op, a.aff, b.aff))

    def P_outer(self):
        return self.outer if self.shared is not None else ()

    outer = ()

    @staticmethod
    def rowed(p):
        """already an element chosen by an index"""
        return any(s[0] == 'e' and s[1] is not None and s[1][0] != 'c' for s in p.path)

    @staticmethod
    def arith(op, a, b):
        if a is None or b is None:
            return None
        ca, cb = a[0] == 'c', b[0] == 'c'
        if op in '+-':
            s = 1 if op == '+' else -1
            if ca and cb:
                return ('c', 0, a[2] + s * b[2])
            if cb:
                return (a[0], a[1], a[2] + s * b[2])
            if ca:
                return (b[0], s * b[1], a[2] + s * b[2])
            if a[0] == b[0]:
                r = (a[0], a[1] + s * b[1], a[2] + s * b[2])
                return r if r[1] else ('c', 0, r[2])
            return None
        if op == '*':
            if ca and cb:
                return ('c', 0, a[2] * b[2])
            if cb:
                return (a[0], a[1] * b[2], a[2] * b[2]) if b[2] else ('c', 0, 0)
            if ca:
                return (b[0], b[1] * a[2], b[2] * a[2]) if a[2] else ('c', 0, 0)
            return None
        if op == '<<' and cb and not ca:
            return (a[0], a[1] << b[2], a[2] << b[2])
        return None

    def e_cond(self, n, lv):
        self.ev(n['c'])
        return self.ev(n['a'], lv).join(self.ev(n['b'], lv))

    def e_lambda(self, n, lv):
        return Val((), None, (n, self.env))

    def e_new(self, n, lv):
        for k in ('size', 'init'):
            if n.get(k) is not None:
                self.ev(n[k])
        return NONE

    def e_delete(self, n, lv):
        v = self.ev(n.get('e'), lv=True)
        self.eff('W', v, n)
        return NONE

    def run_lambda(self, lam, args):
        n, env = lam
        if self.depth > 12:
            return NONE
        params, body = n.get('params') or [], n.get('body')
        self.depth += 1
        for p, a in zip(params, args + [NONE] * len(params)):
            t = p.get('t') or ''
            self.env[p['d']] = a if is_ref(t) or pointer(t) or HANDLE.match(t) else Val((), a.aff, a.lam)
        old, self.locks_l = self.locks, None
        rt, self.S.ret = self.S.ret, NONE
        self.st(body)
        r, self.S.ret = self.S.ret, rt
        self.locks = old
        self.depth -= 1
        return r

    def e_ctor(self, n, lv):
        args = n.get('args') or []
        cls = n.get('cls') or n.get('t') or ''
        h = HANDLE.match(cls) or HANDLE.match(n.get('t') or '')
        ref = len(args) == 1 and (n.get('t') or '').replace('const ', '') == (args[0].get('t') or '').replace('const ', '')
        vs = [self.ev(a, lv=bool(h) or (a.get('k') == 'lambda')) for a in args]
        lam = next((v.lam for v in vs if v.lam), None)
        if h or pointer(n.get('t')):
            out = NONE
            for v in vs:
                out = Val(out.pl | v.pl)
            if ARRAY.match(re.sub('^const ', '', cls)):
                self.eff('R', self.handle(out), n)
                out = self.elements(out)
            return out
        g = self.F.funcs.get(n.get('f'))
        return Val((), vs[0].aff if len(vs) == 1 else None, lam if len(vs) == 1 else None)

    # ---- calls
    def e_call(self, n, lv):
        fn, q = n.get('fn'), n.get('q') or ''
        args = list(n.get('args') or [])
        o = n.get('obj')
        cls = n.get('cls') or ''
        if fn == 'omp_get_thread_num' or fn is None and q.endswith('omp_get_thread_num'):
            return Val((), (('tid',), 1, 0))
        opr = n.get('opr')
        if opr and o is None and args and (cls or opr in ('[]', '()', '->', '=') or opr in ('*', '++', '--') and len(args) == 1):
            # an operator written on its object
            if cls or opr in ('[]', '()', '->', '='):
                o, args = args[0], args[1:]
                fn = 'operator' + opr
        ob = bare(o) if o is not None else None
        if ob is not None and ob.get('k') == 'ref' and ob.get('dk') == 'global' and DIAG.search(ob.get('q') or '') or DIAG.search(cls):
            for a in args:
                self.ev(a)
            return NONE
        ot = (ob.get('t') if ob is not None else '') or ''
        if ob is not None and LOCKT.search(ot) and ob.get('k') == 'ref':
            ls = self.lockvars.get(ob.get('d'), ())
            if fn == 'unlock':
                self.locks = tuple(x for x in self.locks if x not in ls)
            elif fn in ('lock',):
                self.locks = self.locks + ls
            return NONE
        if ob is not None and 'mutex' in (cls or ot):
            v = self.ev(ob, lv=True)
            ls = tuple(sorted('%s' % (p.key(),) for p in v.pl))
            if fn in ('lock', 'lock_shared'):
                self.locks = self.locks + ls
            elif fn.startswith('unlock'):
                self.locks = tuple(x for x in self.locks if x not in ls)
            return NONE
        if ob is not None and SKIP_T.search(cls or ot):
            for a in args:
                self.ev(a)
            return NONE
        # lambdas: called, or handed to something that calls them
        if fn == 'operator()' and ob is not None:
            c = self.ev(ob, lv=True)
            if c.lam:
                return self.run_lambda(c.lam, [self.ev(a, lv=True) for a in args])
        g = self.P.callee(n)
        if fn in ('u2s', 's2u', 'move', 'forward', 'ref', 'as_const') and len(args) == 1 or fn in ('static_cast',):
            return self.ev(args[0], lv)
        # arrays: an element or row is chosen by the first argument
        if o is not None and ARRAY.match(re.sub(r'^const ', '', cls or ot)):
            hv = self.ev(o, lv=True)
            if fn != 'operator=':
                self.eff('R', self.handle(hv), n)
            ov = self.elements(hv)
            vs = [self.ev(a, lv=bool(HANDLE.match(a.get('t') or ''))) for a in args]
            for a, v in zip(args, vs):
                if HANDLE.match(a.get('t') or ''):
                    self.eff('R', v, a)
            el = ov.step(('e', vs[0].aff)) if vs and fn in ROWS else ov
            if fn in STRUCT:
                return NONE
            if fn in ('ptr', 'val', 'view', 'operator[]', 'data', 'operator()', 'slice', 'at', 'begin', 'end', 'valItr', 'valBegin', 'valEnd', 'subItr', 'broadcastItr'):
                return self.load(el, n, lv or is_ref(n.get('rt')) or fn in ('ptr', 'view', 'data', 'slice', 'begin', 'end'))
            if n.get('const') or fn == 'extract':
                self.eff('R', el, n)
                return NONE
            if fn == 'operator=':
                v = vs[0] if vs else NONE
                if ob.get('k') == 'ref' and ob.get('d') in self.env and ob['d'] not in self.P_outer():
                    self.env[ob['d']] = self.elements(v)
                    return v
                self.eff('W', self.handle(hv), n)
                return hv
            self.eff('W', el if fn in ROWS else ov, n)
            return ov
        if o is not None and (g is None or not self.P.inside(g)):
            return self.container(n, fn, q, o, args, lv, ot, cls)
        if g is not None and g.get('body') is not None and self.P.inside(g):
            return self.apply(n, g, o, args, lv)
        # no body: the signature tells what may be written
        if o is not None:
            ov = self.ev(o, lv=True)
            self.eff('R' if n.get('const') else 'W', ov, n)
        pt = n.get('pt') or []
        out = NONE
        for j, a in enumerate(args):
            w = j in ALGO_W.get(fn, ()) and (q.startswith('std') or not g) or j < len(pt) and nonconst_ref(pt[j]) and fn not in ('get', 'begin', 'end', 'tie', 'make_pair', 'make_tuple', 'distance', 'data')
            v = self.ev(a, lv=True)
            if v.lam:
                self.run_lambda(v.lam, [])
            if a.get('k') == 'lambda':
                continue
            if fn in ('get', 'begin', 'end', 'cbegin', 'cend', 'addressof', 'next', 'prev', 'back_inserter', 'inserter', 'tie', 'data', 'real', 'imag') or opr == '*' and len(args) == 1:
                out = Val(out.pl | v.pl)
                continue
            if w:
                self.eff('W', v, n)
                if not (j in ALGO_W.get(fn, ())) or fn in ('swap', 'sort'):
                    self.eff('R', v, n)
            else:
                self.eff('R', v, n)
            if q and not q.startswith('std') and not fn.startswith('operator') and not pt and v.pl and g is None:
                self.S.unknown.add(fn)
        if out.pl:
            return self.load(out, n, lv)
        return NONE

    def container(self, n, fn, q, o, args, lv, ot, cls):
        ov = self.ev(o, lv=True)
        vs = []
        for a in args:
            v = self.ev(a, lv=a.get('k') == 'lambda' or bool(pointer(a.get('t'))))
            if v.lam:
                self.run_lambda(v.lam, [])
            elif v.pl:
                self.eff('R', v, a)
            vs.append(v)
        T = cls or ot
        amap = re.search(r'\b(map|set|multimap|unordered_map|multiset)\b *<?', T) and not re.search(r'vector<.*map', T)
        if fn in STRUCT:
            self.eff('S', ov, n)
            return NONE
        if fn in ACCESS:
            if fn == 'operator[]' and amap:
                self.eff('W', ov, n)              # may insert
            elif fn != 'operator->' and fn != 'operator*':
                self.eff('S', ov, n)
            bits = re.search(r'vector<bool', T.replace(' ', ''))
            if bits or fn in ('begin', 'end', 'cbegin', 'cend', 'find', 'front', 'back', 'lower_bound', 'upper_bound'):
                st = ('e', None)
            elif fn in ('operator[]', 'at') and vs:
                st = ('e', vs[0].aff)
            elif fn in ('count', 'contains', 'c_str'):
                return NONE
            else:
                st = None
            el = ov.step(st) if st else ov
            return self.load(el, n, lv or fn in ('begin', 'end', 'find', 'data', 'cbegin', 'cend', 'lower_bound', 'upper_bound'))
        if n.get('const'):
            self.eff('R', ov, n)
            return NONE
        if n.get('f') is None and n.get('const') is None and not q.startswith('std') and self.f.get('dep') and fn not in ('push_back', 'emplace_back', 'insert', 'emplace', 'clear', 'resize', 'erase', 'assign', 'swap', 'reserve', 'pop_back', 'store', 'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator++', 'operator--', 'operator<<'):
            # an unresolved member function of a template parameter: what it does is not known
            if ov.pl and any(p.root[0] != 'priv' for p in ov.pl):
                self.S.unknown.add(fn)
            self.eff('R', ov, n)
            return NONE
        b = bare(o)
        if fn == 'operator=' and b.get('k') == 'ref' and b.get('d') in self.env and (pointer(ot) or HANDLE.match(ot)) and b['d'] not in self.P_outer():
            self.env[b['d']] = vs[0] if vs else NONE
            return NONE
        self.eff('W', ov, n)
        return ov

    def apply(self, n, g, o, args, lv):
        th = self.ev(o, lv=True) if o is not None and not g.get('static') else (self.thisv if g.get('cls') and not g.get('static') and o is None else NONE)
        vs = []
        pt = [p['t'] for p in g['params']]
        for j, a in enumerate(args):
            t = pt[j] if j < len(pt) else ''
            al = is_ref(t) or pointer(t) or HANDLE.match(t) or a.get('k') == 'lambda' or bare(a).get('k') == 'lambda'
            v = self.ev(a, lv=bool(al))
            vs.append(v)
        for v, t in zip(vs, pt):
            if v.lam:
                self.run_lambda(v.lam, [])
        s = self.P.summary(g, self.depth + 1)
        if s is None:
            self.S.unknown.add(g['fn'])
            for v, t in zip(vs, pt):
                self.eff('W' if nonconst_ref(t) else 'R', v, n)
            self.eff('R' if g.get('const') else 'W', th, n)
            return NONE
        self.S.unknown |= s.unknown
        def place(p):
            r = p.root
            if r[0] == 'p':
                base = vs[r[1]].pl if r[1] < len(vs) else ()
            elif r[0] == 'this':
                base = th.pl
            else:
                base = (Place(r),)
            out = []
            for b in base:
                path = b.path
                for st in p.path:
                    if st[0] == 'e':
                        path = path + (('e', self.subst(st[1], vs)),)
                    elif st == self.EL and self.EL in path:
                        pass
                    elif st == self.HD and self.EL in path:
                        path = None
                        break
                    else:
                        path = path + (st,)
                if path is not None:
                    out.append(Place(b.root, path))
            return out
        if self.live:
            for e in s.effs.values():
                for p in place(e.place):
                    if p.root[0] == 'priv':
                        continue
                    locks = self.locks
                    for l in e.locks:
                        m = re.match(r"^\(\('(p|this)'(?:, (\d+))?,?\), (.*)\)$", l)
                        if m:
                            base = vs[int(m.group(2))].pl if m.group(1) == 'p' and int(m.group(2)) < len(vs) else th.pl if m.group(1) == 'this' else ()
                            for b in base:
                                locks = locks + ('%s' % ((b.root, b.path + eval(m.group(3), {}, {})),),)
                        else:
                            locks = locks + (l,)
                    w = Eff(e.mode, p, tuple(locks), n.get('l') or 0, self.f.get('file') or '', '%s at %s:%s' % (g['fn'], core.rel(e.file), e.l), self.phase)
                    self.S.effs.setdefault(w.key() + (self.phase,), w)
        r = Val({p for q in s.ret.pl for p in place(q)}, self.subst(s.ret.aff, vs))
        if is_ref(g.get('rt')) and not lv:
            return self.load(r, n, lv)
        return r

    @staticmethod
    def subst(a, vs):
        if a is None or a[0] == 'c':
            return a
        if a[0][0] == 'p':
            j = a[0][1]
            v = vs[j].aff if j < len(vs) else None
            if v is None:
                return None
            if v[0] == 'c':
                return ('c', 0, a[1] * v[2] + a[2])
            return (v[0], a[1] * v[1], a[1] * v[2] + a[2])
        if a[0][0] == 'list':
            i = Walk.subst(a[0][2], vs)
            return None if i is None or i[0] == 'c' else (('list', (('?',), ()), i), a[1], a[2])
        return None if a[0][0] in ('it', 'tid') else a


class P01:
    def __init__(self, C, F):
        self.C, self.F = C, F
        self.memo, self.busy, self.byname = {}, set(), {}
        self.regions = {}
        self.gv = {g['q']: g for g in (F.gvars.values() if isinstance(F.gvars, dict) else F.gvars)}

    def callee(self, n):
        g = self.F.funcs.get(n.get('f'))
        if g is not None and g.get('body') is not None:
            return g
        # an instance that is not among the facts: the template it comes from
        q = strip(n.get('q') or '')
        if n.get('f') is None or not q or q.startswith('std::'):
            return g
        if not self.byname:
            for f in self.F.funcs.values():
                if f.get('body') is not None:
                    self.byname.setdefault(strip(f['q']), []).append(f)
        c = [f for f in self.byname.get(q, []) if len(f['params']) >= len(n.get('args') or []) or f.get('dep')]
        return c[0] if len({(f['file'], f['l']) for f in c}) == 1 else g

    def distinct(self, f, key):
        """a local list that only ever receives the variable of the loop that fills it"""
        root, path = key
        if root[0] != 'l' or path:
            return False
        vs = {v['d'] for n in walk(f['body']) if n.get('k') == 'for' and n.get('init') and n['init'].get('k') == 'decl' for v in n['init']['c'] if v.get('k') == 'var'}
        seen = False
        for n in walk(f['body']):
            if n.get('k') == 'call' and n.get('obj') is not None and bare(n['obj']).get('d') == root[1] and not n.get('const'):
                if n['fn'] in ('push_back', 'emplace_back'):
                    a = bare(n['args'][0])
                    if a.get('k') != 'ref' or a.get('d') not in vs:
                        return False
                    seen = True
                elif n['fn'] not in ('reserve', 'clear', 'begin', 'end', 'operator[]', 'at', 'size'):
                    return False
            if n.get('k') == 'call' and n.get('opr') == '=' and n.get('args') and bare(n['args'][0]).get('d') == root[1]:
                return False
        return seen

    def inside(self, g):
        return '/repo/' in (g.get('file') or '') or core.rel(g.get('file') or '').startswith(('src/', 'wrap/')) or (g.get('file') or '').startswith(core.REPO)

    def summary(self, g, depth):
        k = g['f']
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return Summary()
        if depth > 12 or core.rel(g.get('file') or '').startswith('lib/tetgen'):
            return None
        self.busy.add(k)
        s = Summary()
        old, self.regions_keep = self.regions, None
        w = Walk(self, g, s, depth)
        w.lockvars = {}
        for j, p in enumerate(g['params']):
            t = p['t']
            al = is_ref(t) or pointer(t) or HANDLE.match(t)
            w.env[p['d']] = Val({Place(('p', j), (Walk.EL,) if ARRAY.match(re.sub('^const ', '', t)) and not is_ref(t) and not pointer(t) else ())} if al else (), (('p', j), 1, 0))
        reg, self.regions = self.regions, None
        try:
            for i in g.get('inits') or []:
                w.ev(i.get('e'))
            w.st(g['body'])
        finally:
            self.regions = reg
        self.busy.discard(k)
        if len(s.effs) > 4000:
            s = None
        self.memo[k] = s
        return s

    # ---- a region
    def function(self, f):
        """walk a function that holds parallel regions; its own straight-line part only gives the values of its locals"""
        s = Summary()
        w = Walk(self, f, s, 0)
        w.lockvars = {}
        w.live = False
        for j, p in enumerate(f['params']):
            w.env[p['d']] = Val({Place(('l', p['d'], p.get('n')))} if is_ref(p['t']) or pointer(p['t']) or HANDLE.match(p['t']) else ())
            if not w.env[p['d']].pl:
                del w.env[p['d']]
        w.st(f['body'])

    def region(self, w, s):
        S = Summary()
        r = Walk(self, w.f, S, 0)
        r.lockvars = {}
        r.env = {}
        declared = {v['d'] for n in walk(s['body']) for v in ([n] if n.get('k') == 'var' else []) if 'd' in v}
        # aliases and lambdas made before the region keep their meaning; every other local is itself the storage
        for d, v in w.env.items():
            if v.lam:
                r.env[d] = v
            elif v.pl:
                r.env[d] = v
        r.private = set()
        r.shared = True
        r.outer = {d for d in w.env}
        for c in s.get('clauses') or []:
            if c['n'] in ('private', 'firstprivate', 'lastprivate', 'reduction'):
                for v in c['vars']:
                    r.private.add(v['d'])
                    keep = w.env.get(v['d']) if c['n'] == 'firstprivate' and (pointer(v.get('t')) or HANDLE.match(v.get('t') or '')) else None
                    r.env[v['d']] = keep if keep is not None and keep.pl else Val({Place(('priv', v['d']))})
        if 'for' in s['dir'].split():
            r.region_loop(s)
        else:
            r.st(s['body'])
        key = (core.rel(w.f['file']), s.get('l') or w.f['l'])
        self.regions.setdefault(key, []).append((w.f, s, S))

    @staticmethod
    def overlap(a, b):
        """None: different storage; 'same': can be the same in two iterations; 'own': same only within one iteration"""
        if a.root != b.root:
            return None
        own = False
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]:
                break
            if x[0] == 'f':
                if x[1] != y[1]:
                    return None
                continue
            p, q = x[1], y[1]
            if p is None or q is None:
                continue
            if p[0] == 'c' and q[0] == 'c':
                if p[2] != q[2]:
                    return None
                continue
            if p[0] == 'c' or q[0] == 'c':
                continue
            if p[0][0] == 'list' and q[0][0] == 'list' and p == q and p[1] and not own:
                own = p[0]
            if p[0] == q[0] and p[0][0] in ('it', 'tid'):
                if p[1:] == q[1:] and p[1]:
                    own = True
                elif p[1] == q[1] and (p[2] - q[2]) % abs(p[1] or 1):
                    return None
        return own if isinstance(own, tuple) else 'own' if own else 'same'

    def judge(self, key, items):
        C = self.C
        rule = 'no two iterations touch the same storage, one of them writing, without a common lock'
        dep = all(f.get('dep') for f, s, S in items)
        for f, s, S in items:
            if f.get('dep') and not dep:
                continue
            name = '%s:%s' % key
            C.instance('parallel regions', '%s %s' % (f['q'], name))
            effs = list(S.effs.values())
            ws = [e for e in effs if e.mode == 'W']
            fname = '%s|%s' % (f['fn'], )[0:1] if False else f['fn']
            reported = set()
            for e in ws:
                C.instance(rule, '%s writes %s' % (f['fn'], self.say(e.place)))
                for o in effs:
                    if o.place.root != e.place.root or o.phase != e.phase:
                        continue
                    if set(e.locks) & set(o.locks):
                        continue
                    if o.mode == 'S' and len(e.place.path) > len(o.place.path):
                        continue                       # asking for the number of elements while one of them is written
                    ov = self.overlap(e.place, o.place)
                    if isinstance(ov, tuple):
                        if not self.distinct(f, ov[1]):
                            C.undecided(rule, '%s: %s is written at a position taken from a list' % (f['fn'], self.say(e.place)))
                        continue
                    if ov != 'same':
                        continue
                    k = (f['fn'], self.say(e.place))
                    if k in reported:
                        break
                    reported.add(k)
                    what = 'written' if o.mode == 'W' else 'read'
                    C.bad(rule, '%s|%s' % k, '%s:%s' % (core.rel(e.file), e.l), 'in the parallel region at %s, %s is written%s while another iteration may have it %s (line %s%s) and nothing orders the two' % (name, self.say(e.place), ' by ' + e.via if e.via else '', what, o.l, ', ' + o.via if o.via and o is not e else ''))
                    break
            for u in sorted(x for x in S.unknown if x):
                C.undecided('callee effects', '%s: %s' % (f['fn'], u))
            for e in effs:
                if e.mode != 'W':
                    continue

    @staticmethod
    def say(p):
        r = p.root
        out = {'l': lambda: r[2], 'g': lambda: r[1], 's': lambda: 'static %s of %s' % (r[2], r[3]), 'this': lambda: '*this'}.get(r[0], lambda: str(r))()
        out = str(out)
        for st in p.path:
            if st[0] == 'f':
                out += '.' + st[1]
            else:
                out += '[%s]' % ('?' if st[1] is None else st[1][2] if st[1][0] == 'c' else 'i' if st[1][1:] == (1, 0) else '%d*i%+d' % st[1][1:] if len(st[1]) == 3 and isinstance(st[1][1], int) else '?')
        return out


def run(tier):
    C = Check('P01', tier, 'Effect analysis of every omp parallel region: reads and writes of storage that outlives the iteration, through summaries of every callee (parameters, object, globals, function statics; element positions as affine functions of parameters), are paired; two accesses of different iterations to overlapping storage of which one is a write must hold a common lock (critical, atomic, master, mutex) or be chosen by this iteration\'s own index. Private, reduction and region-local variables are exempt by clause.')
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    P = P01(C, F)
    C.assumptions = ['the containers of the standard library may be read by several threads at once, and distinct elements (other than of std::vector<bool>) may be written at once', 'diagnostic output is left aside', 'copies of objects other than arrays do not share storage']
    for f in sorted(F.funcs.values(), key=lambda f: (bool(f.get('dep')), f['f'])):
        if f.get('body') is None or f.get('file', '').startswith('/verif'):
            continue
        if any(n.get('k') == 'omp' and n['dir'].startswith('parallel') for n in walk(f['body'])):
            P.function(f)
    for key in sorted(P.regions):
        P.judge(key, P.regions[key])
    C.floor('parallel regions', 3)
    return C.finish()
