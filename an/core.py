"""Common machinery: builds the fact extractor, runs it over /repo's current sources, loads the resolved trees, and
collects findings, rule instances and evidence. Nothing of /repo is executed."""
import hashlib, json, os, subprocess, sys, time, re, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BRILLE_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
STD = ['-std=c++17', '-fopenmp', '-w', '-ferror-limit=0', '-I' + VERIF + '/stub', '-I' + REPO + '/src', '-I' + REPO + '/wrap',
       '-I' + REPO + '/lib/tetgen', '-I/usr/lib/llvm-18/lib/clang/18/include']
PYB = ['-I/opt/vp/venv/lib/python3.12/site-packages/pybind11/include', '-I/usr/include/python3.12']


class Broken(Exception):
    """The analysis itself cannot run or lost its anchors: an error exit, neither a pass nor a violation."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    out = os.path.join(CACHE, 'extract-' + sha(rd(src)))
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['clang++', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                        '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'], capture_output=True, text=True)
    if r.returncode:
        raise Broken('the fact extractor does not build:\n' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def source_files():
    out = []
    for d in ('src', 'wrap'):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if x != 'tests')
            out += [os.path.join(r, f) for f in sorted(fs) if f.endswith(('.cpp', '.hpp', '.tpp', '.h'))]
    return out


def tree_hash():
    parts = []
    for f in source_files():
        parts += [f, rd(f)]
    for d in ('stub', 'drivers'):
        for r, ds, fs in os.walk(os.path.join(VERIF, d)):
            for f in sorted(fs):
                parts += [f, rd(os.path.join(r, f))]
    return sha(*parts)


def drop_noise(line):
    return line


class Facts:
    """The merged facts of a set of translation units."""

    def __init__(self):
        self.funcs = {}      # mangled name -> function
        self.records = {}    # (qualified name, dep) -> record
        self.enums = {}
        self.gvars = {}
        self.units = []      # (file, had parse errors, functions)
        self.by_sn = {}      # name without template arguments -> [functions]

    def load(self, path, unit, rc):
        n = 0
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                K = o['K']
                if K == 'func':
                    n += 1
                    o['unit'] = unit
                    old = self.funcs.get(o['f'])
                    if old is None:
                        self.funcs[o['f']] = o
                elif K == 'record':
                    o['unit'] = unit
                    self.records.setdefault((o['q'], bool(o.get('dep'))), o)
                elif K == 'enum':
                    self.enums.setdefault((o['q'], o['file'], o['l']), o)
                elif K == 'gvar':
                    k = (o['q'], o['file'])
                    if k not in self.gvars or ('init' in o and 'init' not in self.gvars[k]):
                        self.gvars[k] = o
        self.units.append((unit, rc, n))

    def finish(self):
        for o in self.funcs.values():
            self.by_sn.setdefault(o['sn'], []).append(o)
        for o in self.records.values():
            pass

    def named(self, sn, dep=False):
        return [f for f in self.by_sn.get(sn, []) if dep or not f.get('dep')]

    def methods(self, csn, dep=False):
        return [f for f in self.funcs.values() if f.get('csn') == csn and (dep or not f.get('dep'))]

    def concrete(self):
        return [f for f in self.funcs.values() if not f.get('dep')]

    def best(self):
        """Every function once per source location: its instantiations if there are any, else its uninstantiated form."""
        seen = set((f['file'], f.get('pl') or f['l']) for f in self.funcs.values() if not f.get('dep'))
        return [f for f in self.funcs.values() if not f.get('dep') or (f['file'], f['l']) not in seen]


def extract(units, defines=()):
    """units: paths relative to REPO (src/..., wrap/...) or driver names (d_*.cpp)."""
    tool = build_tool()
    th = tree_hash()
    os.makedirs(CACHE, exist_ok=True)
    flags = STD + PYB + ['-D' + d for d in defines]

    order = sorted(f for f in os.listdir(os.path.join(VERIF, 'drivers')) if f.endswith('.cpp')) + all_units()

    def one(u):
        path = os.path.join(VERIF, 'drivers', u) if u.startswith('d_') else os.path.join(REPO, u)
        if not os.path.exists(path):
            raise Broken('translation unit %s is missing' % path)
        out = os.path.join(CACHE, 'facts-' + sha(th, rd(tool), u, ' '.join(flags)) + '.jsonl')
        rcf = out + '.rc'
        if not (os.path.exists(out) and os.path.exists(rcf)):
            tmp = out + '.%d' % os.getpid()
            r = subprocess.run([tool, tmp, REPO + '/src,' + REPO + '/wrap' + (',' + path if u == 'd_diag.cpp' else '')] + flags + ['--', path], capture_output=True, text=True, cwd='/',
                               env=dict(os.environ, VP_IDBASE=str((order.index(u) if u in order else len(order)) * 1000000)))
            if r.returncode not in (0, 3) or not os.path.exists(tmp):
                raise Broken('fact extraction of %s failed (%d): %s' % (u, r.returncode, r.stderr[-1500:]))
            errs = [l for l in r.stderr.splitlines() if ' error: ' in l]
            if r.returncode == 3 and not u.startswith('d_'):
                raise Broken('%s does not parse: %s' % (u, '; '.join(errs[:3])))
            os.replace(tmp, out)
            with open(rcf + '.%d' % os.getpid(), 'w') as f:
                json.dump([r.returncode, errs], f)
            os.replace(rcf + '.%d' % os.getpid(), rcf)
        return u, out, json.load(open(rcf))
    F = Facts()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, units))
    for u, out, rc in res:
        F.load(out, u, rc[0])
        F.errors = getattr(F, 'errors', []) + rc[1]
    F.finish()
    prune_cache()
    return F


def prune_cache():
    try:
        fs = sorted(((os.path.getmtime(os.path.join(CACHE, f)), os.path.join(CACHE, f)) for f in os.listdir(CACHE) if f.startswith('facts-')))
        for t, f in fs[:-400]:
            os.remove(f)
    except OSError:
        pass


ALL_SRC = None


def all_units():
    us = []
    for d in ('src', 'wrap'):
        us += [d + '/' + f for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith('.cpp')]
    return us


DRIVERS = ['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp']


# ---------------------------------------------------------------- tree helpers
def kids(n):
    for k, v in n.items():
        if k == 'ds':
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n, into_lambda=True):
    """Pre-order over all nodes with a 'k'."""
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if 'k' in x:
            yield x
            if not into_lambda and x['k'] == 'lambda' and x is not n:
                continue
        st.extend(reversed(list(kids(x))))


def walkp(n, parents=()):
    """(node, tuple of ancestors) pairs."""
    if 'k' in n:
        yield n, parents
        parents = parents + (n,)
    for c in kids(n):
        yield from walkp(c, parents)


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


def loc(fn, n=None):
    l = (n or fn).get('l') or fn['l']
    return '%s:%d' % (rel(fn['file']), l)


def strip_t(q):
    """Drop template argument lists from a qualified name."""
    out, d = '', 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator<', i) or q.startswith('operator>', i) or q.startswith('operator-', i):
            m = re.match(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|<|>|->\*|->|-)', q[i:])
            if m and d == 0:
                out += m.group(0); i += len(m.group(0)); continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out


def bare(t):
    """A type without const/reference qualifiers."""
    t = t.strip()
    t = re.sub(r'\s*&+$', '', t)
    t = re.sub(r'^const ', '', t)
    t = re.sub(r' const$', '', t)
    return t.strip()


def is_nonconst_ref(t):
    return t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and not re.search(r' const &$', t)


def is_nonconst_ptr(t):
    t = re.sub(r'\s*(const)?\s*&*$', '', t)
    return t.endswith('*') and not t.startswith('const ')


def pp(n, depth=0):
    """Short source-like rendering of an expression."""
    if n is None:
        return ''
    if depth > 12:
        return '…'
    k = n.get('k')
    P = lambda x: pp(x, depth + 1)
    if k in ('int', 'bool', 'char'):
        return str(n.get('v'))
    if k == 'float':
        return str(n.get('fv'))
    if k == 'str':
        return json.dumps(n.get('s'))
    if k == 'this':
        return 'this'
    if k == 'ref':
        return n['n']
    if k == 'mem':
        return P(n['e']) + ('->' if n.get('arrow') else '.') + n['n']
    if k == 'idx':
        return P(n['e']) + '[' + P(n['i']) + ']'
    if k == 'un':
        return (P(n['e']) + n['op']) if n.get('post') else n['op'] + P(n['e'])
    if k == 'bin':
        return '(' + P(n['a']) + ' ' + n['op'] + ' ' + P(n['b']) + ')'
    if k == 'cond':
        return '(' + P(n['c']) + ' ? ' + P(n['a']) + ' : ' + P(n['b']) + ')'
    if k == 'cast':
        return P(n['e'])
    if k == 'call':
        a = ', '.join(P(x) for x in n['args'])
        if n.get('opr'):
            xs = n['args']
            if n['opr'] == '[]':
                return P(xs[0]) + '[' + P(xs[1]) + ']'
            if n['opr'] == '()':
                return P(xs[0]) + '(' + ', '.join(P(x) for x in xs[1:]) + ')'
            if len(xs) == 2:
                return '(' + P(xs[0]) + ' ' + n['opr'] + ' ' + P(xs[1]) + ')'
            return n['opr'] + P(xs[0])
        if 'obj' in n:
            return P(n['obj']) + '.' + n.get('fn', '?') + '(' + a + ')'
        return (n.get('fn') or P(n.get('fe'))) + '(' + a + ')'
    if k == 'ctor':
        return n.get('fn', '') + '(' + ', '.join(P(x) for x in n['args']) + ')'
    if k == 'init':
        return '{' + ', '.join(P(x) for x in n['c']) + '}'
    if k == 'lambda':
        return '[lambda]'
    return k or '?'


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, prop, tier, rule):
        self.prop, self.tier, self.rule = prop, tier, rule
        self.t0 = time.time()
        self.viol = []        # (key, location, message)
        self.inst = {}        # rule -> list of instance descriptions
        self.undec = []
        self.floors = {}
        self.units = []
        self.assumptions = []
        self.known = load_known().get(prop, {})

    def facts(self, units, defines=()):
        F = extract(units, defines)
        self.units += [(u, rc, n) for u, rc, n in F.units]
        self.nfun = len(F.funcs)
        self.F = F
        return F

    def instance(self, rule, what):
        self.inst.setdefault(rule, []).append(what)

    def undecided(self, rule, what):
        self.undec.append('%s: %s' % (rule, what))

    def floor(self, rule, n):
        """At least n instances of the rule must have been analysed, else the analysis is broken."""
        self.floors[rule] = n

    def bad(self, rule, key, where, msg):
        k = '%s|%s' % (rule, key)
        if k not in [v[0] for v in self.viol]:
            self.viol.append((k, where, msg))

    def finish(self):
        for r, n in self.floors.items():
            if len(self.inst.get(r, [])) < n and all(v[0] in self.known for v in self.viol):
                raise Broken('rule "%s" found %d instances, fewer than the %d confirmed by reading' % (r, len(self.inst.get(r, [])), n))
        new, old = [], []
        for k, where, msg in self.viol:
            (old if k in self.known else new).append((k, where, msg))
        for k, where, msg in old:
            print('KNOWN-FINDING: property=%s %s: %s [%s]' % (self.prop, where, msg, k))
        total = sum(len(v) for v in self.inst.values())
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
              'coverage': {'explanation': self.rule,
                           'units_parsed': len(self.units), 'functions_in_facts': sum(n for _, _, n in self.units),
                           'obligations': total, 'discharged': total - len(self.viol),
                           'instances_per_rule': {r: len(v) for r, v in sorted(self.inst.items())},
                           'samples': {r: sorted(set(map(str, v)))[:6] for r, v in sorted(self.inst.items())},
                           'undecided': self.undec[:200], 'undecided_count': len(self.undec),
                           'known_findings': [k for k, _, _ in old]},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p, 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
        if new:
            with open(rp, 'w') as f:
                for k, where, msg in new:
                    f.write('%s: %s\n    key: %s\n' % (where, msg, k))
            for k, where, msg in new:
                print('%s: %s [%s]' % (where, msg, k))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print('property=%s held: %d obligations over %d rules, %d undecided, %.1fs' % (self.prop, total, len(self.inst), len(self.undec), time.time() - self.t0))
        return 0


def load_known():
    """known-findings.txt: 'finding: property=<id> key=<key> :: <what>' and 'fixed: property=<id> <commit> <what>' lines."""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out
