"""The Python interface as the binding calls of the C++ syntax trees declare it."""
import re
import core
from core import bare


def uncast(n):
    while n is not None and n.get('k') == 'cast':
        n = n['e']
    return n


class Sig:
    """one bound callable: parameter types (self excluded), keyword names and which have defaults"""

    def __init__(self, types, names, defaults, params, where, ret=None):
        self.types, self.names, self.defaults, self.params, self.where, self.ret = types, names, defaults, params, where, ret

    def accepts_kw(self, npos, kws):
        if not self.names:
            return not kws and npos == len(self.types) if self.types is not None else not kws
        if npos > len(self.names) or any(k not in self.names[npos:] for k in kws):
            return False
        return all(d or n in kws for n, d in list(zip(self.names, self.defaults))[npos:])


class Class:
    def __init__(self, name, ctype):
        self.name, self.ctype = name, ctype
        self.inits, self.methods, self.props, self.values = [], {}, {}, []

    def has(self, a):
        return a in self.methods or a in self.props or a in self.values


def argname(n):
    """(keyword, has a default) if the expression is a py::arg"""
    t = bare(n.get('t', ''))
    if not (t.startswith('pybind11::arg') or t.startswith('arg')):
        return None
    s = next((x['s'] for x in core.walk(n) if x['k'] == 'str'), None)
    return (s, t.endswith('arg_v')) if s is not None else None


def split_types(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        if c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def callable_of(F, n):
    """(parameter types, parameter names, return type) of what is bound"""
    n = uncast(n)
    while n is not None and n.get('k') in ('un', 'ctor', 'cast') and n.get('k') != 'lambda':
        if n['k'] == 'un' and n['op'] == '&':
            n = n['e']
        elif n['k'] == 'ctor' and len(n['args']) == 1:
            n = n['args'][0]
        elif n['k'] == 'cast':
            n = n['e']
        else:
            break
    if n is None:
        return None
    if n['k'] == 'lambda':
        ps = n['params']
        return [p['t'] for p in ps], [p.get('n') for p in ps], n.get('rt')
    t = bare(n.get('t', ''))
    m = re.match(r'^pybind11::detail::initimpl::constructor<(.*)>$', t)
    if m:
        ts = split_types(m.group(1))
        return ['self'] + ts, ['self'] + [None] * len(ts), None
    if t.startswith('pybind11::detail::initimpl::factory'):
        lam = next((x for x in core.walk(n) if x['k'] == 'lambda'), None)
        if lam is not None:
            return ['self'] + [p['t'] for p in lam['params']], ['self'] + [p.get('n') for p in lam['params']], None
        return None
    m = re.match(r'^(.*?)\s*\((?:.*::)?\*?\)?\s*\(?(.*)\)(?: const)?(?: noexcept)?$', n.get('t', ''))
    if n['k'] in ('ref', 'mem'):
        f = F.funcs.get(n.get('f'))
        if f is not None:
            ts = [p['t'] for p in f['params']]
            if f.get('csn') and not f.get('static'):
                return ['self'] + ts, ['self'] + [p.get('n') for p in f['params']], f.get('rt')
            return ts, [p.get('n') for p in f['params']], f.get('rt')
        q = re.match(r'^(.*?)\((.*)\)( const)?$', n.get('t', ''))
        if q:
            ts = split_types(q.group(2))
            return ['self'] + ts, ['self'] + [None] * len(ts), q.group(1).strip()
    return None


class Module:
    def __init__(self, F):
        self.F = F
        self.attrs, self.classes, self.funcs = {}, {}, {}
        self.bytype = {}
        fs = [f for f in F.best() if f.get('body') is not None and f['file'].startswith(core.REPO + '/wrap/')]
        callers = {}
        for f in fs:
            for n in core.walk(f['body']):
                if n['k'] == 'call' and n.get('f') and n.get('in'):
                    callers.setdefault(n['f'], []).append(n)
        for f in fs:
            for n in core.walk(f['body']):
                if n['k'] == 'ctor' and re.match(r'^pybind11::(class_|enum_)<', bare(n['t'])) and len(n['args']) >= 2:
                    for nm in self.strs(f, n['args'][1], callers):
                        self.add(nm, bare(n['t']), core.loc(f, n))
                if n['k'] == 'call' and n.get('fn') == 'attr' and n['args']:
                    for nm in self.strs(f, n['args'][0], callers):
                        if 'module' in bare(n['obj']['t']) if 'obj' in n else False:
                            self.attrs[nm] = core.loc(f, n)
        for f in fs:
            for n in core.walk(f['body']):
                if n['k'] != 'call' or not n['args'] or 'pybind11' not in (n.get('cls') or ''):
                    continue
                fn = n.get('fn')
                if fn not in ('def', 'def_static', 'value', 'def_property', 'def_property_readonly', 'def_readonly', 'def_readwrite', 'def_property_readonly_static', 'def_readonly_static', 'attr'):
                    continue
                ct = bare(n['cls'])
                nms = self.strs(f, n['args'][0], callers)
                o = n.get('obj')
                ot = bare(o['t']) if o is not None else ct
                c = self.bytype.get(ot) or self.bytype.get(ct) or self.bytype.get(re.sub(r'^pybind11::enum_<(.*)>$', r'pybind11::enum_<\1>', ot))
                if 'module' in ct or 'module' in ot:
                    if fn == 'def':
                        for nm in nms:
                            s = self.sig(n, 1, False, core.loc(f, n))
                            self.funcs.setdefault(nm, []).append(s)
                            self.attrs[nm] = core.loc(f, n)
                    continue
                if c is None:
                    continue
                if fn == 'value':
                    for nm in nms:
                        c.values.append(nm)
                elif fn.startswith('def') and fn not in ('def', 'def_static'):
                    for nm in nms:
                        c.props[nm] = core.loc(f, n)
                elif fn in ('def', 'def_static'):
                    t0 = bare(n['args'][0].get('t', ''))
                    if 'initimpl' in t0:
                        s = self.sig(n, 0, True, core.loc(f, n))
                        if s:
                            c.inits.append(s)
                    else:
                        for nm in nms:
                            s = self.sig(n, 1, fn == 'def', core.loc(f, n))
                            c.methods.setdefault(nm, []).append(s)
                            if nm == '__init__' and s:
                                c.inits.append(s)

    def add(self, nm, t, where):
        c = Class(nm, t)
        self.classes[nm] = c
        self.bytype.setdefault(t, c)
        self.attrs[nm] = where

    def sig(self, n, first, isself, where):
        c = callable_of(self.F, n['args'][first])
        names, defs = [], []
        for a in n['args'][first + 1:]:
            x = argname(a)
            if x:
                names.append(x[0]); defs.append(x[1])
        if c is None:
            return Sig(None, names, defs, None, where)
        ts, ps, rt = c
        if isself:
            ts, ps = ts[1:], ps[1:]
        return Sig(ts, names, defs, ps, where, rt)

    def strs(self, f, n, callers, depth=0):
        """every text the expression can be"""
        n = uncast(n)
        if n is None or depth > 6:
            return []
        k = n['k']
        if k == 'str':
            return [n['s']]
        if k == 'ctor' and n['args']:
            return self.strs(f, n['args'][0], callers, depth + 1)
        if k == 'call' and n.get('fn') in ('c_str', 'str', 'data') and 'obj' in n:
            return self.strs(f, n['obj'], callers, depth + 1)
        if k == 'call' and n.get('opr') == '+' and len(n['args']) == 2:
            a, b = self.strs(f, n['args'][0], callers, depth + 1), self.strs(f, n['args'][1], callers, depth + 1)
            return [x + y for x in a for y in b]
        if k == 'ref' and n.get('dk') == 'local':
            for x in core.walk(f['body']):
                if x['k'] == 'var' and x.get('d') == n['d'] and x.get('init') is not None:
                    return self.strs(f, x['init'], callers, depth + 1)
        if k == 'ref' and n.get('dk') == 'param':
            out = []
            i = n.get('pi')
            for c in callers.get(f['f'], []):
                if i is not None and i < len(c['args']):
                    out += self.strs(f, c['args'][i], callers, depth + 1)
            return out
        return []
