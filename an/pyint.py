"""A small interpreter over the syntax trees of the Python layer: values are constants, known containers, known
functions and classes, or terms for what is not known; a condition whose value is a term splits the path.  Nothing of
the repository is run: the bound classes are names, and a call to one is an event with the argument terms."""
import ast
import itertools


class Raised(Exception):
    def __init__(self, what):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Unknown(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class T:
    """a term: what is not known, with how it was made"""

    def __init__(self, op, *args, cls=None, shape=None, length=None, py=None):
        self.op, self.args, self.cls, self.shape, self.length, self.py = op, args, cls, shape, length, py

    def key(self):
        return (self.op,) + tuple(key(a) for a in self.args)

    def __repr__(self):
        return self.op + ('(' + ', '.join(show(a) for a in self.args) + ')' if self.args else '')


class Bound:
    """a class of the compiled module"""

    def __init__(self, name):
        self.name = name


class BoundMod:
    pass


class Fn:
    def __init__(self, mod, node, env):
        self.mod, self.node, self.env = mod, node, env


class Opaque:
    """a library name; calling it gives a term"""

    def __init__(self, name):
        self.name = name


def key(v):
    if isinstance(v, T):
        return v.key()
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(key(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted((str(k), key(x)) for k, x in v.items()))
    if isinstance(v, (Bound, Opaque)):
        return ('name', v.name)
    if isinstance(v, (Fn, BoundMod)):
        return ('obj', id(v))
    return ('c', type(v).__name__, str(v))


def show(v):
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(show(x) for x in v) + ']'
    if isinstance(v, (Bound, Opaque)):
        return v.name
    return repr(v)


class Env:
    def __init__(self, up=None):
        self.v, self.up = {}, up

    def get(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.up
        raise KeyError(n)

    def owner(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.up
        return None


BUILTINS = {'any', 'all', 'len', 'isinstance', 'getattr', 'hasattr', 'tuple', 'list', 'dict', 'set', 'float', 'int', 'bool', 'str',
            'enumerate', 'zip', 'range', 'map', 'filter', 'sorted', 'reversed', 'print', 'min', 'max', 'sum', 'abs', 'next', 'iter', 'type', 'callable',
            'ValueError', 'TypeError', 'RuntimeError', 'Exception', 'KeyError', 'ImportError', 'AttributeError', 'NotImplementedError', 'frozenset', 'super', 'object'}


class Interp:
    def __init__(self, pkg, module):
        """pkg: name of Python module -> ast; module: the bind.Module"""
        self.pkg, self.module = pkg, module
        self.events, self.raises, self.memo, self.prefix, self.used = [], None, {}, [], 0
        self.menv = {}
        self.depth = 0
        self.steps = 0

    # -- exploration -------------------------------------------------------------------------
    def paths(self, mod, fname, make, limit=400):
        """every path of a call: (outcome, value, events, decisions)"""
        todo = [[]]
        n = 0
        while todo:
            n += 1
            if n > limit:
                raise Unknown('too many paths')
            self.prefix = todo.pop()
            self.taken, self.memo, self.events, self.menv, self.depth, self.steps = [], {}, [], {}, 0, 0
            args, kws = make()
            try:
                f = self.modenv(mod).get(fname)
                v = self.call(f, args, kws, None)
                out = ('return', v)
            except Raised as e:
                out = ('raise', e.what)
            for i in range(len(self.prefix), len(self.taken)):
                todo.append([t for t, _ in self.taken[:i]] + [not self.taken[i][0]])
            yield out[0], out[1], list(self.events), [(k, t) for t, k in self.taken]

    def decide(self, k):
        if k in self.memo:
            return self.memo[k]
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else True
        self.taken.append((v, k))
        self.memo[k] = v
        return v

    def truth(self, v):
        if isinstance(v, T):
            if v.op == 'not':
                return not self.truth(v.args[0])
            if v.op == 'bool':
                return self.truth(v.args[0])
            return self.decide(v.key())
        if isinstance(v, (Fn, Bound, BoundMod, Opaque)):
            return True
        return bool(v)

    # -- modules -----------------------------------------------------------------------------
    def modenv(self, mod):
        if mod not in self.menv:
            env = self.menv[mod] = Env()
            env.mod = mod
            for st in self.pkg[mod].body:
                try:
                    if isinstance(st, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                        self.stmt(st, env, mod)
                    elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                        self.stmt(st, env, mod)
                    elif isinstance(st, (ast.If, ast.Try)):
                        # the branch in which the compiled module is present defines the names
                        for x in ast.walk(st):
                            if isinstance(x, (ast.FunctionDef, ast.ImportFrom)):
                                try:
                                    self.stmt(x, env, mod)
                                except Unknown:
                                    pass
                except Unknown:
                    pass
        return self.menv[mod]

    def imported(self, node, env, mod):
        base = node.module or ''
        for a in node.names:
            nm, as_ = a.name, a.asname or a.name
            full = base if not node.level else ('brille.' + base if base else 'brille')
            if full in ('brille._brille', 'brille.bound', 'brille') and nm in self.module.attrs and (full != 'brille' or nm != 'Lattice'):
                env.v[as_] = Bound(nm)
            elif full == 'brille' and nm == '_brille':
                env.v[as_] = BoundMod()
            elif full == 'brille' and nm in self.pkg:
                env.v[as_] = Opaque('brille.' + nm)
            elif full == 'brille' and nm == 'Lattice':
                env.v[as_] = self.modenv('lattice').get('Lattice')
            elif full.startswith('brille.') and full[7:] in self.pkg:
                try:
                    env.v[as_] = self.modenv(full[7:]).get(nm)
                except KeyError:
                    env.v[as_] = Opaque(full + '.' + nm)
            else:
                env.v[as_] = Opaque(full + '.' + nm)

    # -- statements --------------------------------------------------------------------------
    def body(self, ss, env, mod):
        for s in ss:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > 20000:
            raise Unknown('too many steps')
        k = type(s)
        if k is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, mod)
        elif k is ast.Assign:
            v = self.ev(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
        elif k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, mod), env, mod)
        elif k is ast.AugAssign:
            cur = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), env, mod) if isinstance(s.target, ast.Name) else self.fail(s)
            self.assign(s.target, self.bin(s.op, cur, self.ev(s.value, env, mod)), env, mod)
        elif k is ast.Return:
            raise Ret(self.ev(s.value, env, mod) if s.value is not None else None)
        elif k is ast.Raise:
            raise Raised(ast.unparse(s)[:80])
        elif k is ast.If:
            self.body(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)
        elif k is ast.FunctionDef:
            env.v[s.name] = Fn(mod, s, env)
        elif k is ast.ImportFrom:
            self.imported(s, env, mod)
        elif k is ast.Import:
            for a in s.names:
                env.v[a.asname or a.name.split('.')[0]] = Opaque(a.name)
        elif k is ast.Try:
            # the compiled module's own refusals are errors either way: only the path without one is followed
            try:
                self.body(s.body, env, mod)
            except Raised as e:
                nm = e.what.replace('raise ', '').split('(')[0].split(':')[0].strip()
                for h in s.handlers:
                    names = [] if h.type is None else [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or nm in names or 'Exception' in names or (nm in ('KeyError', 'IndexError') and 'LookupError' in names):
                        if h.name:
                            env.v[h.name] = T('error', nm)
                        try:
                            self.body(h.body, env, mod)
                        except Raised as e2:
                            raise Raised(e.what if e2.what == 'raise' else e2.what)
                        break
                else:
                    raise
            else:
                self.body(s.orelse, env, mod)
            finally:
                self.body(s.finalbody, env, mod)
        elif k is ast.With:
            for it in s.items:
                v = self.ev(it.context_expr, env, mod)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, mod)
            self.body(s.body, env, mod)
        elif k is ast.For:
            xs = self.seq(self.ev(s.iter, env, mod))
            brk = False
            for x in xs:
                self.assign(s.target, x, env, mod)
                try:
                    self.body(s.body, env, mod)
                except Brk:
                    brk = True
                    break
                except Cnt:
                    pass
            if not brk:
                self.body(s.orelse, env, mod)
        elif k is ast.While:
            for _ in range(64):
                if not self.truth(self.ev(s.test, env, mod)):
                    break
                try:
                    self.body(s.body, env, mod)
                except Brk:
                    break
                except Cnt:
                    pass
            else:
                raise Unknown('loop')
        elif k is ast.Break:
            raise Brk()
        elif k is ast.Continue:
            raise Cnt()
        elif k is ast.Assert:
            if not self.truth(self.ev(s.test, env, mod)):
                raise Raised('assert')
        elif k in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        elif k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    o = self.ev(t.value, env, mod)
                    if isinstance(o, dict):
                        o.pop(self.ev(t.slice, env, mod), None)
                        continue
                if isinstance(t, ast.Name):
                    env.v.pop(t.id, None)
                    continue
                self.fail(s)
        else:
            self.fail(s)

    def fail(self, n):
        raise Unknown(f'{type(n).__name__} at line {getattr(n, "lineno", "?")}')

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.seq(v, n=len(t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                m = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], xs):
                    self.assign(e, x, env, mod)
                self.assign(t.elts[i].value, list(xs[i:len(xs) - m]), env, mod)
                for e, x in zip(t.elts[i + 1:], xs[len(xs) - m:]):
                    self.assign(e, x, env, mod)
                return
            if len(xs) != len(t.elts):
                raise Raised('unpack')
            for e, x in zip(t.elts, xs):
                self.assign(e, x, env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            if isinstance(o, (dict, list)):
                o[self.ev(t.slice, env, mod)] = v
            else:
                self.fail(t)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env, mod)
        else:
            self.fail(t)

    def seq(self, v, n=None):
        if isinstance(v, (list, tuple, set, frozenset, str, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, T):
            m = v.length if v.length is not None else n
            if m is None and v.py is str:
                return [T('item', v, i, py=str) for i in range(3)]
            if m is not None:
                return [T('item', v, i) for i in range(m)]
        raise Unknown('sequence of unknown length: ' + show(v))

    # -- expressions -------------------------------------------------------------------------
    def ev(self, n, env, mod):
        k = type(n)
        if k is ast.Constant:
            return n.value
        if k is ast.Name:
            try:
                return env.get(n.id)
            except KeyError:
                pass
            try:
                return self.modenv(mod).get(n.id)
            except KeyError:
                pass
            if n.id in BUILTINS:
                return Opaque(n.id)
            raise Unknown(f'name {n.id}')
        if k in (ast.List, ast.Tuple, ast.Set):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.seq(self.ev(e.value, env, mod))
                else:
                    out.append(self.ev(e, env, mod))
            if k is ast.Set and not any(isinstance(x, T) for x in out):
                return set(out)
            return tuple(out) if k is ast.Tuple else out
        if k is ast.Dict:
            d = {}
            for a, b in zip(n.keys, n.values):
                if a is None:
                    d.update(self.ev(b, env, mod))
                else:
                    d[self.ev(a, env, mod)] = self.ev(b, env, mod)
            return d
        if k is ast.IfExp:
            return self.ev(n.body if self.truth(self.ev(n.test, env, mod)) else n.orelse, env, mod)
        if k is ast.BoolOp:
            v = None
            for e in n.values:
                v = self.ev(e, env, mod)
                if self.truth(v) != isinstance(n.op, ast.And):
                    return v
            return v
        if k is ast.UnaryOp:
            v = self.ev(n.operand, env, mod)
            if isinstance(n.op, ast.Not):
                if isinstance(v, T):
                    return v.args[0] if v.op == 'not' and self.isbool(v.args[0]) else T('not', v)
                return not self.truth(v)
            if isinstance(n.op, ast.USub):
                return T('neg', v) if isinstance(v, T) else -v
            if isinstance(n.op, ast.UAdd):
                return v
            self.fail(n)
        if k is ast.BinOp:
            return self.bin(n.op, self.ev(n.left, env, mod), self.ev(n.right, env, mod))
        if k is ast.Compare:
            a = self.ev(n.left, env, mod)
            r = True
            for op, b in zip(n.ops, n.comparators):
                b = self.ev(b, env, mod)
                r = self.cmp(op, a, b)
                if not self.truth(r):
                    return r if isinstance(r, T) else False
                a = b
            return r
        if k is ast.Call:
            f = self.ev(n.func, env, mod) if not isinstance(n.func, ast.Attribute) else None
            args, kws = [], {}
            if f is None:
                o = self.ev(n.func.value, env, mod)
            for a in n.args:
                if isinstance(a, ast.Starred):
                    args += self.seq(self.ev(a.value, env, mod))
                else:
                    args.append(self.ev(a, env, mod))
            for a in n.keywords:
                v = self.ev(a.value, env, mod)
                if a.arg is None:
                    if not isinstance(v, dict):
                        raise Unknown('** of an unknown mapping')
                    for x in v:
                        if x in kws:
                            raise Raised('TypeError')
                    kws.update(v)
                else:
                    kws[a.arg] = v
            if f is None:
                return self.method(o, n.func.attr, args, kws, n)
            return self.call(f, args, kws, n)
        if k is ast.Attribute:
            o = self.ev(n.value, env, mod)
            return self.attr(o, n.attr)
        if k is ast.Subscript:
            o = self.ev(n.value, env, mod)
            if isinstance(n.slice, ast.Slice):
                lo, hi, st = [self.ev(x, env, mod) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                if isinstance(o, T):
                    o = self.seq(o)
                if isinstance(o, (list, tuple, str)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    return o[slice(lo, hi, st)]
                raise Unknown('slice')
            i = self.ev(n.slice, env, mod)
            if isinstance(o, dict):
                if isinstance(i, T):
                    raise Unknown('key')
                if i in o:
                    return o[i]
                raise Raised('KeyError')
            if isinstance(o, (list, tuple, str)) and isinstance(i, (int, bool)):
                try:
                    return o[i]
                except IndexError:
                    raise Raised('IndexError')
            return T('item', o, i)
        if k in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            return self.comp(n, env, mod)
        if k is ast.DictComp:
            out = {}
            for e in self.compenvs(n.generators, env, mod):
                out[self.ev(n.key, e, mod)] = self.ev(n.value, e, mod)
            return out
        if k is ast.Lambda:
            return Fn(mod, n, env)
        if k is ast.JoinedStr:
            out = ''
            for x in n.values:
                if isinstance(x, ast.Constant):
                    out += x.value
                else:
                    v = self.ev(x.value, env, mod)
                    if isinstance(v, T):
                        return T('str')
                    out += str(v)
            return out
        if k is ast.NamedExpr:
            v = self.ev(n.value, env, mod)
            self.assign(n.target, v, env, mod)
            return v
        if k is ast.Starred:
            return self.ev(n.value, env, mod)
        self.fail(n)

    def compenvs(self, gens, env, mod):
        envs = [Env(env)]
        for g in gens:
            out = []
            for e in envs:
                for x in self.seq(self.ev(g.iter, e, mod)):
                    e2 = Env(e)
                    self.assign(g.target, x, e2, mod)
                    if all(self.truth(self.ev(c, e2, mod)) for c in g.ifs):
                        out.append(e2)
            envs = out
        return envs

    def comp(self, n, env, mod):
        return [self.ev(n.elt, e, mod) for e in self.compenvs(n.generators, env, mod)]

    def isbool(self, v):
        return isinstance(v, bool) or isinstance(v, T) and (v.op in ('not', 'bool', 'cmp') or v.py is bool)

    def bin(self, op, a, b):
        if not isinstance(a, T) and not isinstance(b, T):
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.Mod):
                    return a % b
                if isinstance(op, ast.BitOr):
                    return a | b
                if isinstance(op, ast.BitAnd):
                    return a & b
                if isinstance(op, ast.FloorDiv):
                    return a // b
                if isinstance(op, ast.Div):
                    return a / b
            except Exception:
                raise Unknown('operation')
        return T('bin' + type(op).__name__, a, b)

    def cmp(self, op, a, b):
        kn = not isinstance(a, T) and not isinstance(b, T)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                o = a if b is None else b
                if isinstance(o, T):
                    r = False            # what the caller passes is not None unless the case says so
                else:
                    r = o is None
                return r if isinstance(op, ast.Is) else not r
            if kn:
                return (a is b) == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (dict, list, tuple, set, str, frozenset)) and not isinstance(a, T):
            if isinstance(b, dict) or not any(isinstance(x, T) for x in b):
                return (a in b) == isinstance(op, ast.In)
        if kn and not any(isinstance(x, T) for v in (a, b) if isinstance(v, (list, tuple)) for x in v):
            try:
                return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                        ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except Exception:
                raise Unknown('comparison')
        return T('cmp', type(op).__name__, a, b)

    def attr(self, o, a):
        if isinstance(o, BoundMod):
            return self.fetch(a)
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + a)
        if isinstance(o, T):
            if a == 'shape' and o.shape is not None:
                return o.shape
            if a == 'ndim' and o.shape is not None:
                return len(o.shape)
            return T('attr', o, a)
        if isinstance(o, Bound):
            return T('attr', o, a)
        raise Unknown('attribute ' + a)

    def fetch(self, a):
        if a in self.module.attrs:
            return Bound(a)
        self.events.append(('missing', a))
        raise Raised('AttributeError: ' + a)

    def method(self, o, m, args, kws, n):
        if isinstance(o, BoundMod):
            return self.call(self.fetch(m), args, kws, n)
        if isinstance(o, Opaque):
            return self.call(Opaque(o.name + '.' + m), args, kws, n)
        if isinstance(o, dict):
            if m == 'pop' or m == 'get':
                if args[0] in o:
                    return o.pop(args[0]) if m == 'pop' else o[args[0]]
                if len(args) > 1:
                    return args[1]
                if m == 'get':
                    return None
                raise Raised('KeyError')
            if m == 'keys':
                return list(o)
            if m == 'values':
                return list(o.values())
            if m == 'items':
                return [tuple(x) for x in o.items()]
            if m == 'setdefault':
                return o.setdefault(*args)
            if m == 'copy':
                return dict(o)
            if m == 'update':
                for a in args:
                    o.update(a)
                o.update(kws)
                return None
        if isinstance(o, (list, tuple)):
            if m == 'append':
                o.append(args[0]); return None
            if m == 'extend':
                o.extend(self.seq(args[0])); return None
            if m == 'insert':
                o.insert(args[0], args[1]); return None
            if m == 'pop':
                return o.pop(*args)
            if m == 'index' and not isinstance(args[0], T):
                return o.index(args[0])
            if m == 'count' and not isinstance(args[0], T):
                return o.count(args[0])
        if isinstance(o, str):
            if all(isinstance(a, (str, int, tuple)) for a in args) and m in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'format', 'capitalize', 'title'):
                return getattr(o, m)(*args)
            if m == 'join':
                xs = self.seq(args[0])
                if all(isinstance(x, str) for x in xs):
                    return o.join(xs)
            if m == 'format':
                return T('str')
        if isinstance(o, (set, frozenset)) and m in ('intersection', 'union', 'issubset', 'isdisjoint', 'difference', 'issuperset'):
            return getattr(o, m)(*args)
        if isinstance(o, T):
            if m in ('copy', 'squeeze', 'tolist', 'astype'):
                return o
            return T('call', T('attr', o, m), args, kws)
        raise Unknown(f'method {m} of {show(o)}')

    def isinst(self, v, c):
        if isinstance(c, (tuple, list)):
            rs = [self.isinst(v, x) for x in c]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if isinstance(c, Bound):
            if isinstance(v, T):
                return v.cls == c.name if v.cls is not None or v.py is not None or v.shape is not None else None
            return False
        if isinstance(c, Opaque):
            py = {'str': str, 'tuple': tuple, 'list': list, 'dict': dict, 'int': int, 'float': float, 'bool': bool, 'set': set}.get(c.name)
            if isinstance(v, T):
                if v.py is not None and py is not None:
                    return issubclass(v.py, py)
                if v.cls is not None:
                    return False
                return None
            return isinstance(v, py) if py is not None else False
        return None

    def call(self, f, args, kws, n):
        if isinstance(f, Fn):
            return self.fn(f, args, kws)
        if isinstance(f, Bound):
            self.events.append(('call', f.name, list(args), dict(kws), getattr(n, 'lineno', 0)))
            return T('new', f.name, list(args), dict(kws), cls=f.name if f.name in self.module.classes else None)
        if isinstance(f, Opaque):
            return self.builtin(f.name, args, kws)
        if isinstance(f, T):
            return T('call', f, list(args), dict(kws))
        raise Unknown('call of ' + show(f))

    def builtin(self, nm, args, kws):
        short = nm.split('.')[-1]
        a = args[0] if args else None
        if nm == 'any':
            return any(self.truth(x) for x in self.seq(a))
        if nm == 'all':
            return all(self.truth(x) for x in self.seq(a))
        if nm == 'len':
            if isinstance(a, T):
                if a.length is not None:
                    return a.length
                if a.shape:
                    return a.shape[0]
                return T('len', a)
            return len(a)
        if nm == 'isinstance':
            r = self.isinst(args[0], args[1])
            return r if r is not None else T('isinstance', args[0], args[1])
        if nm in ('getattr', 'hasattr'):
            if isinstance(a, BoundMod) and isinstance(args[1], str):
                if nm == 'hasattr':
                    return args[1] in self.module.attrs
                if args[1] not in self.module.attrs and len(args) > 2:
                    return args[2]
                return self.fetch(args[1])
            if isinstance(a, BoundMod):
                raise Unknown('getattr of the compiled module with an unknown name')
            return T('getattr', *args)
        if nm in ('tuple', 'list', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
            xs = self.seq(a) if args else []
            if nm in ('set', 'frozenset') and not any(isinstance(x, T) for x in xs):
                return set(xs)
            if nm == 'sorted':
                return sorted(xs)
            if nm == 'reversed':
                return xs[::-1]
            return tuple(xs) if nm == 'tuple' else xs
        if nm == 'dict':
            d = {}
            if args:
                d.update(a if isinstance(a, dict) else dict(self.seq(a)))
            d.update(kws)
            return d
        if nm in ('float', 'int', 'bool', 'str'):
            py = {'float': float, 'int': int, 'bool': bool, 'str': str}[nm]
            if isinstance(a, T):
                if a.py is py:
                    return a
                return T(nm, a, py=py)
            if a is None and args:
                raise Raised('TypeError')
            try:
                return py(*args)
            except Exception:
                raise Raised('ValueError')
        if nm == 'enumerate':
            return [(i, x) for i, x in enumerate(self.seq(a))]
        if nm == 'zip':
            return [tuple(t) for t in zip(*[self.seq(x) for x in args])]
        if nm == 'range' and all(isinstance(x, int) for x in args):
            return list(range(*args))
        if nm == 'map':
            return [self.call(a, list(t), {}, None) for t in zip(*[self.seq(x) for x in args[1:]])]
        if nm == 'filter':
            return [x for x in self.seq(args[1]) if (self.truth(x) if a is None else self.truth(self.call(a, [x], {}, None)))]
        if nm == 'next' and isinstance(a, list):
            if a:
                return a[0]
            if len(args) > 1:
                return args[1]
            raise Raised('StopIteration')
        if nm == 'print':
            return None
        if nm == 'callable':
            return isinstance(a, (Fn, Bound))
        if nm in ('min', 'max', 'sum', 'abs') and all(not isinstance(x, T) for x in args):
            return {'min': min, 'max': max, 'sum': sum, 'abs': abs}[nm](*args)
        if short == 'shape' and (nm.startswith('numpy') or nm.startswith('np')):
            return self.shape(a)
        if nm.startswith('numpy.') and short in ('array', 'asarray', 'squeeze', 'ascontiguousarray', 'asanyarray', 'ravel'):
            return a
        if nm.startswith('numpy.') and short == 'ndim':
            return len(self.shape(a))
        return T('lib', nm, list(args), dict(kws))

    def shape(self, v):
        if isinstance(v, T):
            if v.shape is not None:
                return v.shape
            raise Unknown('shape of ' + show(v))
        if isinstance(v, (list, tuple)):
            ss = {self.shape(x) for x in v}
            if len(ss) == 1:
                return (len(v),) + ss.pop()
            if not ss:
                return (0,)
            raise Raised('ValueError')
        return ()

    def fn(self, f, args, kws):
        self.depth += 1
        if self.depth > 30:
            raise Unknown('recursion')
        try:
            env = Env(f.env)
            a = f.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            kws = dict(kws)
            for p, v in zip(pos, args):
                env.v[p] = v
            if len(args) > len(pos):
                if a.vararg is None:
                    raise Raised('TypeError: too many arguments')
                env.v[a.vararg.arg] = tuple(args[len(pos):])
            elif a.vararg is not None:
                env.v[a.vararg.arg] = ()
            allowed = [x.arg for x in a.args + a.kwonlyargs]
            for kk in list(kws):
                if kk in allowed:
                    if kk in env.v and kk in pos[:len(args)]:
                        raise Raised('TypeError: twice')
                    env.v[kk] = kws.pop(kk)
            if a.kwarg is not None:
                env.v[a.kwarg.arg] = kws
            elif kws:
                raise Raised('TypeError: unexpected keyword ' + ', '.join(kws))
            ds = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
            ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for p in pos + [x.arg for x in a.kwonlyargs]:
                if p not in env.v:
                    if p not in ds:
                        raise Raised('TypeError: missing ' + p)
                    env.v[p] = self.ev(ds[p], f.env, f.mod)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            try:
                self.body(f.node.body, env, f.mod)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1
