"""P15: the Python layer against the binding calls of the C++ syntax trees."""
import ast
import glob
import itertools
import os
import re
import symtable
import builtins
import core
import bind
import pyint
from pyint import T, Interp, Unknown

RULE = ('The compiled module is read from the pybind11 calls of the type-checked C++ (classes, attributes, overloads with their keyword names); every import, attribute and announced name of the '
        'Python modules is resolved against it, and create_grid, create_bz and Lattice are interpreted path by path over every combination of their documented arguments, each constructor call '
        'being matched to an overload the way pybind11 does.')

NUMPY = {'shape', 'size', 'ndim', 'dtype', 'min', 'max', 'mean', 'sum', 'copy', 'reshape', 'T', 'astype', 'dot', 'flatten', 'tolist', 'all', 'any'}


def rp(m):
    return f'brille/{m}.py'


# -- (a) names --------------------------------------------------------------------------------
def names(C, M, pkg, src):
    known = {}                          # names every python module of the package defines
    for m, t in pkg.items():
        d = set()
        for n in ast.walk(t):
            if isinstance(n, ast.alias):
                d.add((n.asname or n.name).split('.')[0])
        tab = symtable.symtable(src[m], rp(m), 'exec')
        d |= {s.get_name() for s in tab.get_symbols() if s.is_assigned() or s.is_imported()}
        known[m] = d
    for m, t in pkg.items():
        for n in ast.walk(t):
            if isinstance(n, ast.ImportFrom):
                base = ('brille.' + n.module if n.module else 'brille') if n.level else (n.module or '')
                if base == 'brille' and not n.level or base == 'brille':
                    for a in n.names:
                        ok = a.name == '_brille' or a.name in pkg or a.name in known['__init__']
                        put(C, ok, 'imports', f'{m}|{a.name}', f'{rp(m)}:{n.lineno}', f'brille has no name {a.name}', f'{rp(m)}: from brille import {a.name}')
                elif base == 'brille._brille':
                    for a in n.names:
                        put(C, a.name in M.attrs, 'imports', f'{m}|{a.name}', f'{rp(m)}:{n.lineno}', f'the compiled module has no attribute {a.name}', f'{rp(m)}: from _brille import {a.name}')
                elif base.startswith('brille.'):
                    sub = base[7:]
                    if sub not in pkg:
                        C.bad('imports', f'{m}|{base}', f'{rp(m)}:{n.lineno}', f'there is no module {base}')
                        continue
                    for a in n.names:
                        put(C, a.name in known[sub] or a.name == '*', 'imports', f'{m}|{a.name}', f'{rp(m)}:{n.lineno}', f'{base} has no name {a.name}', f'{rp(m)}: from {base} import {a.name}')
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == '_brille':
                put(C, n.attr in M.attrs, 'imports', f'{m}|{n.attr}', f'{rp(m)}:{n.lineno}', f'the compiled module has no attribute {n.attr}', f'{rp(m)}: _brille.{n.attr}')
        # announced names
        for n in ast.walk(t):
            vs = None
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(x, ast.Name) and x.id == '__all__' for x in ts):
                    vs = n.value
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == '__all__' and n.args:
                vs = n.args[0]
            if vs is None:
                continue
            for x in ast.walk(vs):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    put(C, x.value in known[m], 'announced', f'{m}|{x.value}', f'{rp(m)}:{x.lineno}', f'__all__ announces {x.value}, which the module does not define', f'{rp(m)}: {x.value}')
        # names that nothing defines
        def scopes(tab):
            yield tab
            for c in tab.get_children():
                yield from scopes(c)
        for tab in scopes(symtable.symtable(src[m], rp(m), 'exec')):
            for s in tab.get_symbols():
                if not s.is_referenced():
                    continue
                glob_ = s.is_global() or tab.get_type() == 'module'
                if not glob_ or (tab.get_type() == 'module' and (s.is_assigned() or s.is_imported())):
                    continue
                nm = s.get_name()
                if nm in known[m] and nm in module_names(src[m], m) or nm in dir(builtins) or nm in ('__name__', '__file__', '__doc__', '__all__'):
                    C.instance('defined', f'{rp(m)}: {tab.get_name()}: {nm}')
                else:
                    C.bad('defined', f'{m}|{tab.get_name()}|{nm}', f'{rp(m)}:{tab.get_lineno()}', f'{tab.get_name()} uses {nm}, which nothing defines')


_mn = {}


def module_names(src, m):
    if m not in _mn:
        tab = symtable.symtable(src, rp(m), 'exec')
        _mn[m] = {s.get_name() for s in tab.get_symbols() if s.is_assigned() or s.is_imported()}
    return _mn[m]


def put(C, ok, rule, key, where, msg, what):
    if ok:
        C.instance(rule, what)
    else:
        C.bad(rule, key, where, msg)


# -- calls among the Python functions ----------------------------------------------------------
def local_calls(C, pkg):
    for m, t in pkg.items():
        fs = {}
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef):
                fs.setdefault(n.name, []).append(n)
        for n in ast.walk(t):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(fs.get(n.func.id, [])) == 1):
                continue
            f = fs[n.func.id][0]
            a = f.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            star = any(isinstance(x, ast.Starred) for x in n.args)
            dstar = any(k.arg is None for k in n.keywords)
            kws = [k.arg for k in n.keywords if k.arg]
            where = f'{rp(m)}:{n.lineno}'
            bad = None
            if not star and len(n.args) > len(pos) and a.vararg is None:
                bad = 'too many arguments'
            unk = [k for k in kws if k not in pos and k not in [x.arg for x in a.kwonlyargs]]
            if unk and a.kwarg is None:
                bad = 'no parameter ' + unk[0]
            twice = [k for k in kws if k in pos[:len(n.args)]] if not star else []
            if twice:
                bad = f'{twice[0]} given twice'
            if not star and not dstar:
                need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
                miss = [p for i, p in enumerate(need) if i >= len(n.args) and p not in kws]
                if miss:
                    bad = 'nothing for ' + miss[0]
            put(C, bad is None, 'calls', f'{m}|{f.name}', where, f'{f.name} is called with {bad}', f'{where} {f.name}')


# -- matching of constructor calls ---------------------------------------------------------------
def ctype(t):
    t = core.bare(t).replace('const ', '').strip()
    if t.startswith('pybind11::array'):
        return 'array'
    if t.startswith('std::basic_string') or t.startswith('std::string'):
        return 'str'
    if t in ('double', 'float'):
        return 'double'
    if t == 'bool':
        return 'bool'
    if re.match(r'^(unsigned |signed )?(int|long|short|char|long long)$', t) or t in ('size_t', 'unsigned'):
        return 'int'
    return t


def accepts(M, t, v, convert):
    c = ctype(t)
    py = v.py if isinstance(v, T) else type(v) if not isinstance(v, (list, tuple, dict)) else None
    obj = isinstance(v, T) and v.cls is not None
    if c == 'array':
        if py is str or obj:
            return False
        return convert or isinstance(v, T) and v.shape is not None
    if c in ('double', 'int', 'bool', 'str'):
        if obj or isinstance(v, (list, tuple, dict)) or v is None:
            return False
        if isinstance(v, T) and v.shape:
            return False
        if isinstance(v, T) and py is None:
            return True                       # the caller's own value
        if c == 'str':
            return py is str
        if c == 'bool':
            return py is bool or convert and py in (int, float)
        if c == 'int':
            return py in (int, bool)
        return py is float or convert and py in (int, bool)
    if c.startswith('std::vector'):
        return isinstance(v, (list, tuple)) or isinstance(v, T) and v.py is None and v.cls is None
    if isinstance(v, T) and v.cls is not None:
        k = M.classes.get(v.cls)
        return k is not None and re.search(r'<(.*)>$', k.ctype) is not None and core.bare(re.search(r'^[^<]*<(.*)>$', k.ctype).group(1)).split(',')[0].split('<')[0].strip() == c.split('<')[0]
    if isinstance(v, T) and v.py is None and v.shape is None:
        return True
    return False


def resolve(M, cls, args, kws):
    """(overload, keyword name -> value) of a constructor call, or None"""
    for convert in (False, True):
        for s in M.classes[cls].inits:
            if s.types is None:
                raise Unknown('overload of unknown type')
            if s.names:
                if not s.accepts_kw(len(args), list(kws)):
                    continue
                nm = s.names
            else:
                if kws or len(args) != len(s.types):
                    continue
                nm = [f'#{i}' for i in range(len(args))]
            got = dict(zip(nm, args))
            got.update(kws)
            if all(accepts(M, t, got[k], convert) for k, t in zip(nm, s.types) if k in got):
                return s, got
    return None


def norm(v):
    if isinstance(v, T) and v.op in ('float', 'int', 'bool', 'str') and v.args:
        return norm(v.args[0])
    if isinstance(v, (list, tuple)):
        return ('seq',) + tuple(norm(x) for x in v)
    if isinstance(v, T) and v.op == 'item':
        return ('item', norm(v.args[0]), v.args[1])
    return pyint.key(v)


def sub(k, pre):
    return {a: b for a, b in k.items()}


# -- (b) create_grid ---------------------------------------------------------------------------
KINDS = {'nest': ('BZNestQ', [('max_volume', 'max_branchings'), ('number_density', 'max_branchings')], [('max_volume',), ('number_density',)]),
         'mesh': ('BZMeshQ', [('max_size', 'num_levels', 'max_points')], [()]),
         'trellis': ('BZTrellisQ', [('node_volume_fraction', 'always_triangulate')], [()])}
PYT = {'max_volume': float, 'number_density': int, 'max_branchings': int, 'max_size': float, 'num_levels': int, 'max_points': int, 'node_volume_fraction': float, 'always_triangulate': bool}


def create_grid(C, M, I):
    where = rp('utils') + ':create_grid'
    for vals, vecs, mesh, nest in itertools.product((False, True), repeat=4):
        flags = dict(complex_values=vals, complex_vectors=vecs, mesh=mesh, nest=nest)
        what = 'create_grid(' + ', '.join(k for k, v in flags.items() if v) + ')'
        if mesh and nest:
            try:
                outs = [(o, ev) for o, v, ev, d in I.paths('utils', 'create_grid', lambda: ([T('bz', cls='BrillouinZone')], dict(flags)))]
            except Unknown as e:
                C.undecided('grid', f'{what}: {e}')
                continue
            put(C, all(o == 'raise' for o, ev in outs), 'grid', 'both|' + suffix(vals, vecs), where, 'asking for both a mesh and a nest grid is not refused', what + ' refused')
            continue
        base, forms, musts = KINDS['nest' if nest else 'mesh' if mesh else 'trellis']
        want = base + suffix(vals, vecs)
        for form, must in zip(forms, musts):
            opts = [k for k in form if k not in must]
            for r in range(len(opts) + 1):
                for extra in itertools.combinations(opts, r):
                    # keyword or positional flags, the caller's values typed or not
                    for typed in (True, False):
                        keys = list(must) + list(extra)
                        given = {k: T('kw', k, py=PYT[k] if typed else None) for k in keys}
                        one_grid(C, M, I, flags, given, want, where, what + ' with ' + (', '.join(keys) or 'nothing'))
        if nest:
            try:
                outs = [(o, ev) for o, v, ev, d in I.paths('utils', 'create_grid', lambda: ([T('bz', cls='BrillouinZone')], dict(flags)))]
                put(C, all(o == 'raise' for o, ev in outs), 'grid', 'nothing', where, 'a nest grid without max_volume or number_density is not refused', what + ' with nothing refused')
            except Unknown as e:
                C.undecided('grid', f'{what}: {e}')


def suffix(vals, vecs):
    return 'cc' if vals else 'dc' if vecs else 'dd'


def one_grid(C, M, I, flags, given, want, where, what):
    try:
        for out, v, evs, dec in I.paths('utils', 'create_grid', lambda: ([T('bz', cls='BrillouinZone')], dict(flags, **given))):
            key = what
            miss = [e[1] for e in evs if e[0] == 'missing']
            if miss:
                C.bad('grid', want + '|' + miss[0], where, f'{what}: the compiled module has no {miss[0]}')
                return
            if out == 'raise':
                C.bad('grid', want + '|raise', where, f'{what}: refused with {v}')
                return
            calls = [e for e in evs if e[0] == 'call']
            if len(calls) != 1 or not (isinstance(v, T) and v.op == 'new' and v.args[0] == calls[0][1]):
                C.undecided('grid', f'{what}: what is returned is not the one object constructed')
                return
            _, cls, args, kws, line = calls[0]
            if cls != want:
                C.bad('grid', f'{want}|class', f'{where}:{line}', f'{what}: makes a {cls} instead of a {want}')
                return
            r = resolve(M, cls, args, kws)
            if r is None:
                C.bad('grid', f'{want}|overload', f'{where}:{line}', f'{what}: no constructor of {cls} accepts ({", ".join(map(pyint.show, args))})')
                return
            s, got = r
            for k, x in got.items():
                t = norm(x)
                src = [g for g in given if contains(t, ('kw', ('c', 'str', g)))]
                if src and src != [k]:
                    C.bad('grid', f'{want}|{src[0]}', f'{where}:{line}', f'{what}: {src[0]} is passed as {k}')
                    return
                if k in given and t != given[k].key():
                    C.bad('grid', f'{want}|{k}', f'{where}:{line}', f'{what}: {k} is not passed on ({pyint.show(x)} is)')
                    return
            lost = [k for k in given if k not in got]
            if lost:
                C.bad('grid', f'{want}|{lost[0]}', f'{where}:{line}', f'{what}: {lost[0]} is not passed on')
                return
            if norm(got[s.names[0]]) != ('bz',):
                C.bad('grid', f'{want}|zone', f'{where}:{line}', f'{what}: the Brillouin zone is not passed on')
                return
            C.instance('grid', what + ' -> ' + cls)
    except Unknown as e:
        C.undecided('grid', f'{what}: {e}')


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(a, x) for a in t)


def grid_types(C, M):
    for n, c in M.classes.items():
        m = re.match(r'^BZ(Trellis|Mesh|Nest)Q([dc])([dc])$', n)
        if not m:
            continue
        args = bind.split_types(re.search(r'^[^<]*<[^<]*<(.*)>>$', c.ctype).group(1))
        got = ''.join('c' if 'complex' in a else 'd' for a in args[:2])
        put(C, got == m.group(2) + m.group(3) and m.group(1) in c.ctype, 'classes', n, M.attrs[n], f'{n} is the class {c.ctype}', n)


# -- (c) create_bz, (d) Lattice -----------------------------------------------------------------
def scalar(n):
    return T(n, py=float, shape=())


def arr(n, sh=(3,)):
    return T(n, shape=sh, length=sh[0])


def seqof(*names):
    return ('seq',) + tuple((n,) for n in names)


SPG = lambda: T('spacegroup', py=str, shape=())
ABC, ANG = ['a', 'b', 'c'], ['alpha', 'beta', 'gamma']
BZFORMS = {
    'six numbers': (lambda: ([scalar(x) for x in ABC + ANG] + [SPG()], {}), [seqof(*ABC), seqof(*ANG)]),
    'two lists': (lambda: ([arr('lens'), arr('angs'), SPG()], {}), [('lens',), ('angs',)]),
    'two rows': (lambda: ([arr('lens', (1, 3)), arr('angs', (1, 3)), SPG()], {}), [('lens',), ('angs',)]),
    'two columns': (lambda: ([arr('lens', (3, 1)), arr('angs', (3, 1)), SPG()], {}), [('lens',), ('angs',)]),
    'vectors': (lambda: ([arr('vectors', (3, 3)), SPG()], {}), [('vectors',)]),
    'six keywords': (lambda: ([], dict({x: scalar(x) for x in ABC + ANG}, spacegroup=SPG())), [seqof(*ABC), seqof(*ANG)]),
    'two keywords': (lambda: ([], dict(lens=arr('lens'), angs=arr('angs'), spacegroup=SPG())), [('lens',), ('angs',)]),
    'vector keyword': (lambda: ([], dict(lattice_vectors=arr('vectors', (3, 3)), spacegroup=SPG())), [('vectors',)]),
    'keywords and a positional spacegroup': (lambda: ([SPG()], dict(lens=arr('lens'), angs=arr('angs'))), [('lens',), ('angs',)]),
    'lists and a spacegroup keyword': (lambda: ([arr('lens'), arr('angs')], dict(spacegroup=SPG())), [('lens',), ('angs',)]),
    'vectors and a spacegroup keyword': (lambda: ([arr('vectors', (3, 3))], dict(spacegroup=SPG())), [('vectors',)]),
}


def lattice_event(M, evs):
    ls = [e for e in evs if e[0] == 'call' and e[1] == 'Lattice']
    return ls[0] if len(ls) == 1 else None


def create_bz(C, M, I):
    where = rp('utils') + ':create_bz'
    flags = ['is_reciprocal', 'use_primitive', 'time_reversal_symmetry', 'wedge_search', 'snap_to_symmetry']
    for form, (make, values) in BZFORMS.items():
        for bits in itertools.product((False, True), repeat=len(flags)):
            fl = dict(zip(flags, bits))
            what = f'create_bz from {form}: ' + ', '.join(f'{k}={v}' for k, v in fl.items())

            def mk():
                a, k = make()
                k.update(fl)
                k['search_length'] = T('search_length', py=int)
                return a, k
            try:
                ok = True
                for out, v, evs, dec in I.paths('utils', 'create_bz', mk):
                    bad = one_bz(M, out, v, evs, fl, values)
                    if bad:
                        C.bad('zone', f'{form}|{bad[0]}', where, f'{what}: {bad[1]}')
                        ok = False
                        break
                if ok:
                    C.instance('zone', what)
                else:
                    break
            except Unknown as e:
                C.undecided('zone', f'{what}: {e}')
                break


def one_bz(M, out, v, evs, fl, values):
    miss = [e[1] for e in evs if e[0] == 'missing']
    if miss:
        return miss[0], f'the compiled module has no {miss[0]}'
    if out == 'raise':
        return 'raise', f'refused with {v}'
    le = lattice_event(M, evs)
    bz = [e for e in evs if e[0] == 'call' and e[1] == 'BrillouinZone']
    if le is None or len(bz) != 1 or not (isinstance(v, T) and v.op == 'new' and v.args[0] == 'BrillouinZone'):
        raise Unknown('not one lattice and one zone')
    r = resolve(M, 'Lattice', le[2], le[3])
    if r is None:
        return 'lattice', f'no constructor of the compiled Lattice accepts ({", ".join(map(pyint.show, le[2]))}; {", ".join(le[3])})'
    s, got = r
    pos = [norm(got[k]) for k in s.names[:len(values)] if k in got]
    if pos != values:
        return 'values', f'the lattice is made from {pos} instead of {values}'
    if len(s.types) <= len(values) or s.names[len(values)] not in got or norm(got[s.names[len(values)]]) != ('spacegroup',):
        return 'spacegroup', 'the spacegroup is not passed on'
    for k, w in (('real_space', not fl['is_reciprocal']), ('snap_to_symmetry', fl['snap_to_symmetry'])):
        if k not in s.names:
            return k, f'the compiled Lattice has no keyword {k}'
        if k not in got or got[k] is not w:
            return k, f'{k} is {got.get(k, "not passed")}'
    r = resolve(M, 'BrillouinZone', bz[0][2], bz[0][3])
    if r is None:
        return 'zone', f'no constructor of BrillouinZone accepts the call ({", ".join(bz[0][3])})'
    s, got = r
    for k in ('use_primitive', 'time_reversal_symmetry', 'wedge_search'):
        if k not in s.names:
            return k, f'BrillouinZone has no keyword {k}'
        if got.get(k) is not fl[k]:
            return k, f'{k} is {got.get(k, "not passed")}'
    if 'search_length' not in got or norm(got['search_length']) != ('search_length',):
        return 'search_length', 'search_length is not passed on'
    if norm(got[s.names[0]])[:2] != ('new', ('c', 'str', 'Lattice')):
        return 'lattice', 'the zone is not made from the lattice'
    return None


def lattice(C, M, I):
    where = rp('lattice') + ':Lattice'
    V = {'lengths and angles': (lambda: (arr('lens'), arr('angs')), [('lens',), ('angs',)]),
         'a list of lengths and angles': (lambda: [arr('lens'), arr('angs')], [('lens',), ('angs',)]),
         'packed vectors': (lambda: (arr('vectors', (3, 3)),), [('vectors',)]),
         'vectors': (lambda: arr('vectors', (3, 3)), [('vectors',)]),
         'three vectors': (lambda: [arr('u'), arr('v'), arr('w')], [('seq', ('u',), ('v',), ('w',))])}
    G = {'none': (lambda: {}, []), 'name': (lambda: {'spacegroup': T('name', py=str, length=None)}, [('name',)]),
         'packed name': (lambda: {'spacegroup': (T('name', py=str),)}, [('name',)]),
         'name and choice': (lambda: {'spacegroup': (T('name', py=str), T('choice', py=str))}, [('name',), ('choice',)]),
         'symmetry': (lambda: {'symmetry': T('sym', cls='Symmetry')}, [('sym',)]),
         'matrices and vectors': (lambda: {'symmetry': (arr('W', (2, 3, 3)), arr('w', (2, 3)))}, [('new', 'Symmetry', ('W',), ('w',))]),
         'xyz text': (lambda: {'symmetry': T('xyz', py=str)}, [('new', 'Symmetry', ('xyz',))])}
    B = {'none': (lambda: {}, []), 'basis': (lambda: {'basis': T('bas', cls='Basis')}, [('bas',)]),
         'positions and types': (lambda: {'basis': (arr('pos', (2, 3)), [0, 1])}, [('new', 'Basis', ('pos',), ('seq', ('c', 'int', '0'), ('c', 'int', '1')))])}
    K = [{}, {'real_space': T('rs', py=bool)}, {'snap_to_symmetry': T('snap', py=bool), 'real_space': T('rs', py=bool)}, {'row_vectors': T('rv', py=bool)}]
    for (vn, (vm, vw)), (gn, (gm, gw)), (bn, (bm, bw)), ks in itertools.product(V.items(), G.items(), B.items(), K):
        if 'row_vectors' in ks and len(vw) == 2:
            continue
        what = f'Lattice from {vn}, {gn}, {bn}, {", ".join(ks)}'

        def mk():
            return [vm()], dict(gm(), **bm(), **ks)
        try:
            for out, v, evs, dec in I.paths('lattice', 'Lattice', mk):
                if gn == 'none' and bn != 'none':
                    put(C, out == 'raise', 'lattice', 'basis alone', where, 'a basis without symmetry is not refused', what + ' refused')
                    continue
                if out == 'raise':
                    C.bad('lattice', f'{gn}|{bn}|raise', where, f'{what}: refused with {v}')
                    break
                le = lattice_event(M, evs)
                if le is None or not (isinstance(v, T) and v.op == 'new' and v.args[0] == 'Lattice'):
                    C.undecided('lattice', what)
                    break
                bad = None
                for e in evs:
                    if e[0] == 'call' and resolve(M, e[1], e[2], e[3]) is None:
                        bad = f'no constructor of {e[1]} accepts ({", ".join(map(pyint.show, e[2]))}; {", ".join(e[3])})'
                if bad is None:
                    s, got = resolve(M, 'Lattice', le[2], le[3])
                    want = vw + gw + bw
                    order = [flat(got[k]) for k in s.names if k in got and k not in ks]
                    if order != want:
                        bad = f'the compiled Lattice gets {order} instead of {want}'
                    for k, x in ks.items():
                        if k not in got or norm(got[k]) != x.key():
                            bad = f'{k} is not passed on'
                if bad:
                    C.bad('lattice', f'{gn}|{bn}|{" ".join(ks)}', where, f'{what}: {bad}')
                    break
                C.instance('lattice', what)
        except Unknown as e:
            C.undecided('lattice', f'{what}: {e}')


def flat(v):
    if isinstance(v, T) and v.op == 'new':
        return ('new', v.args[0]) + tuple(flat(x) for x in list(v.args[1]) + list(v.args[2].values()))
    return norm(v)


# -- (e) keywords of the bound functions -----------------------------------------------------------
def keywords(C, M):
    for c in list(M.classes.values()) + [None]:
        groups = [('__init__', c.inits)] + list(c.methods.items()) if c is not None else list(M.funcs.items())
        for nm, sigs in groups:
            for s in sigs:
                if s is None or not s.names or s.types is None:
                    continue
                who = (c.name + '.' if c is not None else '') + nm
                if len(s.names) != len(s.types):
                    C.bad('keywords', f'{who}|count', s.where, f'{who} has {len(s.types)} parameters and {len(s.names)} keyword names')
                    continue
                dup = [k for k in s.names if s.names.count(k) > 1]
                if dup:
                    C.bad('keywords', f'{who}|{dup[0]}', s.where, f'{who} has the keyword {dup[0]} twice')
                    continue
                ps = [p for p in (s.params or [])]
                crossed = [k for i, k in enumerate(s.names) if k in ps and ps.index(k) != i]
                if crossed:
                    C.bad('keywords', f'{who}|{crossed[0]}', s.where, f'{who}: the keyword {crossed[0]} is bound to the parameter {ps[s.names.index(crossed[0])]}')
                    continue
                last = max([i for i, d in enumerate(s.defaults) if not d], default=-1)
                C.instance('keywords', f'{who}({", ".join(s.names)})')


# -- (f) attributes of bound objects ------------------------------------------------------------------
def attributes(C, M, pkg, I):
    gt = None
    for m, t in pkg.items():
        if m not in ('plotting', 'vis', 'utils'):
            continue
        for f in [n for n in ast.walk(t) if isinstance(n, (ast.FunctionDef,))]:
            params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
            guards = {}
            nodes = list(ast.walk(f))

            def clsof(n):
                """bound classes an isinstance test names"""
                if isinstance(n, ast.Tuple):
                    r = [clsof(e.value if isinstance(e, ast.Starred) else e) for e in n.elts]
                    return None if any(x is None for x in r) else sorted(set(sum(r, [])))
                if isinstance(n, ast.Name):
                    if n.id == '__grid_types__':
                        return sorted(k for k in M.classes if re.match(r'^BZ(Trellis|Mesh|Nest)Q', k))
                    if n.id in M.classes:
                        return [n.id]
                return None
            guarded = {}
            for g in nodes:
                if isinstance(g, ast.If) and isinstance(g.test, ast.Call) and isinstance(g.test.func, ast.Name) and g.test.func.id == 'isinstance' and isinstance(g.test.args[0], (ast.Name, ast.Attribute)):
                    cs = clsof(g.test.args[1])
                    if cs is None:
                        continue
                    tgt = ast.unparse(g.test.args[0])
                    for b in g.body:
                        for n in ast.walk(b):
                            if isinstance(n, (ast.Attribute,)) and ast.unparse(n.value) == tgt and isinstance(n.ctx, ast.Load):
                                guarded[id(n)] = True
                                miss = [c for c in cs if not M.classes[c].has(n.attr)]
                                put(C, not miss, 'attributes', f'{m}|{f.name}|{n.attr}', f'{rp(m)}:{n.lineno}', f'{f.name}: {miss[:1]} has no attribute {n.attr}', f'{rp(m)}:{n.lineno} {tgt}.{n.attr}')
            use = {}
            for n in nodes:
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in params and n.value.id != 'self' and id(n) not in guarded:
                    use.setdefault(n.value.id, []).append(n)
            for p, ns in use.items():
                at = {n.attr for n in ns}
                cand = [c for c in M.classes.values() if any(a not in NUMPY and c.has(a) for a in at)]
                if not cand:
                    continue
                full = [c for c in cand if all(c.has(a) for a in at)]
                best = max(cand, key=lambda c: sum(c.has(a) for a in at))
                for n in ns:
                    put(C, bool(full) or best.has(n.attr), 'attributes', f'{m}|{f.name}|{n.attr}', f'{rp(m)}:{n.lineno}', f'{f.name}: {best.name} has no attribute {n.attr}', f'{rp(m)}:{n.lineno} {p}.{n.attr}')


def run(tier):
    C = core.Check('P15', tier, RULE)
    F = C.facts([u for u in core.all_units() if u.startswith('wrap/')])
    M = bind.Module(F)
    pkg, src = {}, {}
    for p in sorted(glob.glob(core.REPO + '/brille/*.py')):
        m = os.path.basename(p)[:-3]
        src[m] = open(p).read()
        pkg[m] = ast.parse(src[m])
    I = Interp(pkg, M)
    names(C, M, pkg, src)
    local_calls(C, pkg)
    grid_types(C, M)
    create_grid(C, M, I)
    create_bz(C, M, I)
    lattice(C, M, I)
    keywords(C, M)
    attributes(C, M, pkg, I)
    C.assumptions.append('numpy, matplotlib and vispy provide the names used of them; an argument the caller passes without conversion has a type the constructor accepts')
    for r, n in (('imports', 60), ('announced', 60), ('defined', 40), ('calls', 20), ('classes', 9), ('grid', 100), ('zone', 300), ('lattice', 200), ('keywords', 60), ('attributes', 12)):
        C.floor(r, n)
    return C.finish()
