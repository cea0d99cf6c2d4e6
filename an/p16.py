"""P16: results depend on the arguments only (effect analysis of ambient sources and of mutable process-wide state)."""
import ast
import glob
import os
import re
import core
import guards
from core import loc

RULE = ('No function of the library reads a clock, a random source, the environment, the process or thread identity or an address, or walks an unordered container, except: the status printer and the stop watch (whose values P23 shows only feed diagnostics), '
        'a clock read where a caller-supplied seed is zero, and thread numbers and counts that only select or size per-thread storage. No function changes a variable of static storage other than the status printer and the approximation defaults.')
CLOCK = re.compile(r'(::now|^(std::)?(time|clock|gettimeofday|clock_gettime|localtime|gmtime|times|ftime|difftime|rdtsc|__rdtsc))$')
RANDOM = re.compile(r'(^(std::)?(rand|srand|random|srandom|drand48|lrand48|arc4random|getrandom)|random_device(::.*)?)$')
ENV = re.compile(r'^(std::)?(getenv|secure_getenv|setlocale|gethostname|getcwd|getlogin|getuid|sysconf|getrusage|current_path|hardware_concurrency|getpid|getppid|_getpid|gettid|brille::process_id|brille::pid_filename)$|filesystem::(current_path|temp_directory_path)$')
THREAD = re.compile(r'thread::hardware_concurrency$|^(omp_get_thread_num|omp_get_num_threads|omp_get_max_threads|omp_get_num_procs|omp_in_parallel|omp_get_wtime|omp_get_level)$|this_thread::get_id$')
ENGINE = re.compile(r'(_engine|mt19937(_64)?|minstd_rand0?|ranlux\w*|knuth_b)(::\w+)?$')
WATCH = {'brille::DebugPrinter', 'brille::Stopwatch'}
STATE_OK = {'brille::printer', 'brille::approx_float::config'}
CONFIG_WRITERS = re.compile(r'^(wrap/|src/approx_config|src/debug|src/logger)')


def excused(f):
    r = core.rel(f['file'])
    return r.startswith('src/logger.') or (f.get('csn') or '') in WATCH or f['fn'] == 'time_to_string' or r == 'src/process_id.cpp'


def up(anc, n):
    """the first ancestor that is not a cast, a copy or an initialiser"""
    for p in reversed(anc):
        if p['k'] in ('cast', 'init') or p['k'] == 'ctor' and len(p.get('args') or []) == 1 and p['args'][0] is n:
            n = p
            continue
        return p, n
    return None, n


def uses_of(f, d):
    for n, anc in core.walkp(f['body']):
        if n['k'] == 'ref' and n.get('d') == d:
            yield n, anc


def index_use(p, n):
    """n is the index of the element access p"""
    if p is None:
        return False
    if p['k'] == 'idx':
        return p.get('i') is n or p.get('e') is not n
    if p['k'] == 'call' and (p.get('opr') == '[]' or p.get('fn') == 'at'):
        a = p.get('args') or []
        return any(x is n for x in a[(0 if p.get('obj') is not None else 1):])
    return False


def size_use(p, n):
    """n sizes or bounds something"""
    if p is None:
        return False
    if p['k'] == 'call' and (p.get('q') or p.get('fn') or '').split('::')[-1] in ('omp_set_num_threads', 'resize', 'reserve', 'assign', 'min', 'max', 's2u', 'u2s', 'make_unique'):
        return True
    if p['k'] == 'ctor' and 'vector' in (p.get('t') or ''):
        return True
    return p['k'] == 'bin' and p['op'] in ('<', '<=', '>', '>=', '==', '!=')


def flows_ok(f, n, anc, ok, depth=0):
    """every place the value gets to is allowed by ok"""
    p, m = up(anc, n)
    if ok(p, m):
        return True
    if p is None or depth > 4:
        return False
    if p['k'] == 'cond' and p.get('c') is not m:
        return flows_ok(f, p, anc[:[i for i, x in enumerate(anc) if x is p][0]], ok, depth + 1)
    if p['k'] == 'cond' or p['k'] == 'if' and p.get('cond') is m:
        return False
    if p['k'] == 'call' and (p.get('q') or '').split('<')[0].split('::')[-1] in ('s2u', 'u2s', 'max', 'min'):
        return flows_ok(f, p, anc[:[i for i, x in enumerate(anc) if x is p][0]], ok, depth + 1)
    if p['k'] == 'var':
        return all(flows_ok(f, u, a, ok, depth + 1) for u, a in uses_of(f, p['d']))
    if p['k'] == 'bin' and p['op'] == '=' and p['a']['k'] == 'ref' and p['b'] is m:
        return all(u is p['a'] or flows_ok(f, u, a, ok, depth + 1) for u, a in uses_of(f, p['a'].get('d')))
    if p['k'] == 'bin' and p['op'] == '=' and p['a'] is m:
        return True    # it is replaced
    if p['k'] == 'call' and FACTS:
        # handed on: judged where it is received
        i = next((i for i, a in enumerate(p.get('args') or []) if a is m), None)
        g = FACTS[0].funcs.get(p.get('f'))
        nm = (p.get('fn') or (p.get('q') or '').split('::')[-1]).split('<')[0]
        gs = [g] if g is not None else [x for x in FACTS[0].best() if x['fn'] == nm and x.get('body') is not None]
        if i is None or not gs or any(i >= len(x['params']) for x in gs):
            return False
        key = tuple(sorted(x['f'] for x in gs)) + (i,)
        if key not in RECEIVED:
            RECEIVED[key] = True
            RECEIVED[key] = all(flows_ok(x, u, a, ok) for x in gs for u, a in uses_of(x, x['params'][i]['d']))
        return RECEIVED[key]
    return False


FACTS, RECEIVED = [], {}


def seed_guard(F, f):
    """clock values are only looked at where a parameter called a seed is zero"""
    ps = {p['d'] for p in f['params'] if re.search(r'seed', p['n'])}

    def at(n):
        if n['k'] == 'ref' and n.get('d') in ps:
            return True
        if n['k'] == 'bin' and n['op'] in ('>', '!=', '==', '<=', '<', '>='):
            a, b = n['a'], n['b']
            while a['k'] == 'cast':
                a = a['e']
            while b['k'] == 'cast':
                b = b['e']
            for x, y, op in ((a, b, n['op']), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(n['op'], n['op']))):
                if x['k'] == 'ref' and x.get('d') in ps and y['k'] == 'int' and int(y['v']) in (0, 1):
                    v = int(y['v'])
                    # a seed is unsigned; "given" means not zero
                    return {('>', 0): True, ('!=', 0): True, ('==', 0): False, ('<=', 0): False, ('>=', 1): True, ('<', 1): False}.get((op, v))
        return None
    return at if ps else None


def dead_if_seeded(F, f, n, gs, anc, at, depth=0):
    if any(guards.value(F, f, c, at) is (not pol) for c, pol in gs):
        return True
    # a local that holds the value and is only used where there is no seed
    for p in reversed(anc):
        if p['k'] == 'var' and depth < 4:
            gd = {id(m): g for m, g in guards.nodes(f)}
            us = list(uses_of(f, p['d']))
            return bool(us) and all(dead_if_seeded(F, f, u, gd.get(id(u), ()), a, at, depth + 1) for u, a in us)
        if p['k'] in ('block', 'lambda'):
            break
    return False


def ambient(C, F):
    seen = set()
    for f in sorted((f for f in F.best() if f.get('body') is not None), key=lambda f: (f['file'], f['l'])):
        if (f['file'], f['l']) in seen:
            continue
        seen.add((f['file'], f['l']))
        C.instance('ambient', f['q'])
        if excused(f):
            C.instance('excused', f['q'])
            continue
        name = core.strip_t(f['q'])
        gd = None
        for n, anc in core.walkp(f['body']):
            k = n['k']
            if k == 'call' or k == 'ctor':
                q = core.strip_t(n.get('q') or n.get('fn') or '')
                what = None
                if CLOCK.search(q) and not (n.get('csn') or n.get('cls') or '').startswith('brille'):
                    what = 'a clock (%s)' % q
                elif RANDOM.search(q) or k == 'ctor' and 'random_device' in (n.get('cls') or ''):
                    what = 'a random source (%s)' % q
                elif ENV.search(q):
                    what = 'the environment of the process (%s)' % q
                elif THREAD.search(q):
                    num = q.endswith('thread_num')
                    C.instance('thread', '%s: %s' % (name, q))
                    if not flows_ok(f, n, anc, index_use if num else lambda p, m: index_use(p, m) or size_use(p, m)):
                        C.bad('thread', '%s|%s' % (name, q), loc(f, n), '%s uses %s for something other than selecting or sizing the storage of a thread' % (name, q))
                elif re.search(r'^std::hash', n.get('cls') or q) and '*' in (n.get('cls') or ''):
                    what = 'the hash of an address'
                elif k == 'call' and n.get('fn') in ('begin', 'cbegin') and 'unordered_' in ((n.get('cls') or '') + str((n.get('obj') or {}).get('t') or '')):
                    what = 'the order of an unordered container'
                if what:
                    at = seed_guard(F, f)
                    gd = gd if gd is not None else {id(m): g for m, g in guards.nodes(f)}
                    if 'clock' in what and at is not None and dead_if_seeded(F, f, n, gd.get(id(n), ()), anc, at):
                        C.instance('seed', '%s reads %s only when no seed is given' % (name, what))
                        continue
                    C.bad('ambient', '%s|%s' % (name, what), loc(f, n), '%s depends on %s' % (name, what))
            elif k == 'cast' and n.get('ck') == 'PointerToIntegral':
                C.bad('ambient', '%s|address' % name, loc(f, n), '%s turns an address into a number' % name)
            elif k == 'bin' and n['op'] in ('<', '>', '<=', '>=') and (n['a'].get('t') or '').rstrip().endswith('*') and (n['b'].get('t') or '').rstrip().endswith('*'):
                bases = []
                for s in (n['a'], n['b']):
                    while s['k'] == 'cast' or s['k'] == 'bin' and s['op'] in '+-':
                        s = s['e'] if s['k'] == 'cast' else s['a']
                    bases.append(s.get('d') or s.get('n'))
                if not any(x['k'] in ('for', 'while', 'do') for x in anc) and bases[0] != bases[1]:
                    C.bad('ambient', '%s|address order' % name, loc(f, n), '%s decides by the order of two addresses' % name)
            elif k == 'forrange':
                r = n.get('range') or {}
                if 'unordered_' in str(r.get('t') or ''):
                    C.bad('ambient', '%s|unordered' % name, loc(f, n), '%s goes through an unordered container' % name)
    for r in F.records.values():
        for m in r['fields']:
            if re.search(r'(map|set)<[^,<>]*\*\s*[,>]', m['t']) and 'std::' in m['t']:
                C.bad('ambient', '%s|%s' % (r['q'], m['n']), '%s:%s' % (core.rel(r.get('file', '')), r.get('l')), '%s::%s is ordered by addresses' % (r['q'], m['n']))


def root(n):
    while n is not None and n['k'] in ('mem', 'idx', 'cast') or n is not None and n['k'] == 'call' and n.get('opr') in ('[]', '()') or n is not None and n['k'] == 'un' and n['op'] in ('*', '&'):
        if n['k'] == 'mem' and n.get('arrow') and n['e']['k'] != 'ref':
            n = n['e']
        elif n['k'] == 'call':
            n = n['obj'] if n.get('obj') is not None else n['args'][0]
        else:
            n = n['e']
    return n


def state(C, F):
    gv = {}
    for g in F.gvars.values():
        gv[g['q']] = g
    seen = set()
    for f in sorted((f for f in F.best() if f.get('body') is not None), key=lambda f: (f['file'], f['l'])):
        if (f['file'], f['l']) in seen:
            continue
        seen.add((f['file'], f['l']))
        r = core.rel(f['file'])
        if r.startswith('src/logger.') or f['fn'].startswith('PyInit_') or f['fn'].startswith('pybind11_init_'):
            continue
        name = core.strip_t(f['q'])
        stat = {n['d']: n for n in core.walk(f['body']) if n['k'] == 'var' and n.get('static')}
        C.instance('state', name)
        for d, v in stat.items():
            for n in core.walk(v['init']) if v.get('init') is not None else []:
                if n['k'] == 'this' or n['k'] == 'ref' and (n.get('dk') == 'param' or n.get('dk') == 'local' and n.get('d') not in stat or n.get('dk') in ('var', 'binding')):
                    C.bad('state', '%s|%s' % (name, v['n']), loc(f, n), '%s gives its static variable %s a value made from the arguments of the first call' % (name, v['n']))
                    break
        if re.search(r'[^t] &$|^(?!const ).*&$', f['rt']) and not f['rt'].startswith('const '):
            for n in core.walk(f['body']):
                if n['k'] == 'return' and n.get('e') is not None:
                    b = root(n['e'])
                    if b is not None and b['k'] == 'ref' and b.get('d') in stat and not stat[b['d']]['t'].startswith('const '):
                        C.bad('state', '%s|%s' % (name, b.get('n')), loc(f, n), '%s hands out its static variable %s to be changed' % (name, b.get('n')))
        for n in core.walk(f['body']):
            tg, how = [], None
            if n['k'] == 'bin' and n['op'] in guards.ASSIGN:
                tg = [n['a']]
            elif n['k'] == 'un' and n['op'] in ('++', '--'):
                tg = [n['e']]
            elif n['k'] == 'call':
                if n.get('opr') in guards.ASSIGN | {'++', '--', '<<'} and (n.get('obj') is not None or n.get('args')):
                    tg = [n['obj'] if n.get('obj') is not None else n['args'][0]]
                elif n.get('obj') is not None and not n.get('const') and n.get('fn') not in ('begin', 'end', 'at', 'find', 'data', 'size', 'front', 'back') and not n.get('opr'):
                    tg = [n['obj']]
                pts = n.get('pt') or []
                for a, t in zip(n.get('args') or [], pts):
                    if a is not None and (core.is_nonconst_ref(t) or core.is_nonconst_ptr(t)):
                        tg.append(a)
            for t in tg:
                b = root(t)
                if b is None or b['k'] != 'ref':
                    continue
                if b.get('d') in stat and not re.match(r'^const ', stat[b['d']]['t']):
                    C.bad('state', '%s|%s' % (name, b.get('n')), loc(f, n), '%s changes its static variable %s' % (name, b.get('n')))
                q = b.get('q')
                g = gv.get(q)
                if g is None or b.get('dk') not in ('global', 'static', 'gvar', 'field', None):
                    continue
                if q in STATE_OK:
                    if q == 'brille::printer':
                        continue
                    f2 = F.funcs.get(n.get('f')) if n['k'] == 'call' else None
                    if CONFIG_WRITERS.match(r) or f2 is not None and f2.get('const') or n['k'] == 'call' and n.get('obj') is not None and not n.get('args'):
                        continue
                    C.bad('state', '%s|%s' % (name, q), loc(f, n), '%s changes the approximation defaults of the process' % name)
                else:
                    C.bad('state', '%s|%s' % (name, q), loc(f, n), '%s changes %s, which outlives the call' % (name, q))


PYMODS = {'time', 'random', 'secrets', 'uuid', 'datetime', 'locale', 'socket', 'getpass'}


def python(C):
    for p in sorted(glob.glob(os.path.join(core.REPO, 'brille', '*.py'))):
        tree = ast.parse(open(p).read())
        rel = os.path.relpath(p, core.REPO)
        C.instance('python', rel)
        for n in ast.walk(tree):
            bad = None
            if isinstance(n, ast.Import):
                bad = next(('module ' + a.name for a in n.names if a.name.split('.')[0] in PYMODS), None)
            elif isinstance(n, ast.ImportFrom):
                bad = 'module ' + n.module if (n.module or '').split('.')[0] in PYMODS else None
            elif isinstance(n, ast.Attribute):
                s = ast.unparse(n)
                if re.match(r'^(np|numpy)\.random(\.|$)|^os\.(environ|getenv|getpid|getcwd)', s):
                    bad = s
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('id', 'hash', 'globals'):
                bad = n.func.id + '()'
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                if isinstance(it, ast.Set) or isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('set', 'frozenset'):
                    bad = 'the order of a set'
            elif isinstance(n, ast.Global):
                bad = 'module variable ' + ', '.join(n.names)
            if bad:
                C.bad('python', '%s|%s' % (rel, bad), '%s:%s' % (rel, getattr(n, 'lineno', '?')), '%s depends on %s' % (rel, bad))


def run(tier):
    C = core.Check('P16', tier, RULE)
    F = C.facts(['d_array.cpp', 'd_util.cpp', 'd_lattice.cpp', 'd_grid.cpp', 'd_arith.cpp', 'd_wrap.cpp'] + core.all_units())
    FACTS[:] = [F]
    ambient(C, F)
    state(C, F)
    python(C)
    C.floor('ambient', 800)
    C.floor('state', 800)
    C.floor('thread', 10)
    C.floor('seed', 1)
    C.floor('python', 5)
    C.assumptions += ['The number of threads is part of the run: vertices of a trellis are numbered in the order the threads found them.', 'The order of additions in OpenMP reductions of floating point values is not considered.', 'Reads of uninitialised storage are the subject of P19.']
    return C.finish()
