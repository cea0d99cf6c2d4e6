"""Path conditions of the nodes of a function body, and their three-valued evaluation."""
import core

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
EXITS = {'return', 'throw', 'break', 'continue'}


def leaves(s):
    """the statement never completes normally"""
    if s is None:
        return False
    k = s['k']
    if k in EXITS:
        return True
    if k == 'block':
        return any(leaves(c) for c in s['c'])
    if k == 'if':
        return s.get('else') is not None and leaves(s['then']) and leaves(s['else'])
    return False


def parts(s):
    """children in evaluation order, for statements without control flow"""
    return core.kids(s)


def visit(n, g, out):
    """out(node, guards) for every node; guards = ((condition, polarity), ...)"""
    if n is None:
        return
    if 'k' not in n:
        for c in parts(n):
            visit(c, g, out)
        return
    k = n['k']
    out(n, g)
    if k == 'block':
        for c in n['c']:
            visit(c, g, out)
            if c is not None and c['k'] == 'if':
                if leaves(c['then']):
                    g = g + ((c['cond'], False),)
                elif c.get('else') is not None and leaves(c['else']):
                    g = g + ((c['cond'], True),)
        return
    if k == 'if':
        if n.get('init') is not None:
            visit(n['init'], g, out)
        if n.get('cvar') is not None:
            visit(n['cvar'], g, out)
        visit(n['cond'], g, out)
        visit(n['then'], g + ((n['cond'], True),), out)
        if n.get('else') is not None:
            visit(n['else'], g + ((n['cond'], False),), out)
        return
    if k == 'cond':
        visit(n['c'], g, out)
        visit(n['a'], g + ((n['c'], True),), out)
        visit(n['b'], g + ((n['c'], False),), out)
        return
    if k == 'bin' and n['op'] in ('&&', '||'):
        a, b = n['a'], n['b']
        visit(a, g, out)
        visit(b, g + ((a, n['op'] == '&&'),), out)
        return
    if k == 'while':
        c = n.get('cond')
        if c is not None:
            visit(c, g, out)
            for x in parts(n):
                if x is not c:
                    visit(x, g + ((c, True),), out)
            return
    if k == 'lambda':
        if n.get('body') is not None:
            visit(n['body'], (), out)
        return
    for c in parts(n):
        visit(c, g, out)


def nodes(f):
    r = []
    for i in f.get('init') or []:
        e = i.get('e') if isinstance(i, dict) else None
        if e is not None:
            visit(e, (), lambda n, g: r.append((n, g)))
    visit(f['body'], (), lambda n, g: r.append((n, g)))
    return r


def locals_of(f):
    """local variables that are only ever initialised: id -> initialiser"""
    ini, written = {}, set()
    for n in core.walk(f['body']):
        if n['k'] == 'var' and n.get('init') is not None and n.get('t', '').replace('const ', '').strip() == 'bool':
            ini[n['d']] = n['init']
        if n['k'] == 'bin' and n['op'] in ASSIGN or n['k'] == 'un' and n['op'] in ('++', '--', '&'):
            t = n['a'] if n['k'] == 'bin' else n['e']
            if t is not None and t['k'] == 'ref':
                written.add(t.get('d'))
        if n['k'] == 'call':
            for a, pt in zip(n.get('args') or [], n.get('pt') or []):
                if core.is_nonconst_ref(pt) and a is not None and a['k'] == 'ref':
                    written.add(a.get('d'))
    return {d: e for d, e in ini.items() if d not in written}


def value(F, f, n, atom, depth=0):
    """True, False or None (unknown) of a condition; atom(n) gives the value of the atoms that are fixed"""
    if n is None or depth > 6:
        return None
    v = atom(n)
    if v is not None:
        return v
    k = n['k']
    if k == 'init' and len(n.get('c') or []) == 1:
        return value(F, f, n['c'][0], atom, depth)
    if k == 'cast':
        return value(F, f, n['e'], atom, depth)
    if k == 'bool':
        return n['v'] in ('1', 'true', True, 1)
    if k == 'int':
        return int(n['v']) != 0
    if k == 'un' and n['op'] == '!':
        x = value(F, f, n['e'], atom, depth)
        return None if x is None else not x
    if k == 'bin' and n['op'] in ('&&', '||', '&', '|', '==', '!='):
        a, b = [value(F, f, x, atom, depth) for x in (n['a'], n['b'])]
        op = n['op']
        if op in ('&&', '&'):
            return False if a is False or b is False else (True if a and b else None)
        if op in ('||', '|'):
            return True if a or b else (False if a is False and b is False else None)
        if a is None or b is None:
            return None
        return (a == b) == (op == '==')
    if k == 'cond':
        c = value(F, f, n['c'], atom, depth)
        a, b = value(F, f, n['a'], atom, depth), value(F, f, n['b'], atom, depth)
        return a if c else b if c is False else a if a is not None and a == b else None
    if k == 'ref':
        e = locals_of(f).get(n.get('d'))
        if e is not None:
            return value(F, f, e, atom, depth + 1)
    if k == 'call':
        g = F.funcs.get(n.get('f'))
        if g is not None and g['body'] is not None and g['body']['k'] == 'block' and len(g['body']['c']) == 1 and g['body']['c'][0]['k'] == 'return' and not g['params']:
            return value(F, g, g['body']['c'][0]['e'], atom, depth + 1)
    return None


def excluded(F, f, guards, atom):
    """some condition on the path is false when the atoms have the given values"""
    return any(value(F, f, c, atom) is (not pol) for c, pol in guards)
