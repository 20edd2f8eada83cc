"""Queries on the value-flow graph shared by the rules."""

from __future__ import annotations

import ast

from .flow import alts, callee, children, cval, is_const


def walk(n):
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def vwalk(n):
    """Like walk, without the conditions of conditional values."""
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(x.args[1:3] if x.op == 'ite' else children(x))


def bname(n):
    """Unqualified name of the function or method of a call node."""
    if n.op != 'call':
        return None
    nm = callee(n)[1]
    return nm.rsplit('.', 1)[-1] if isinstance(nm, str) else None


def mcall(n, *names):
    """The node is a call of one of these methods."""
    return n.op == 'call' and callee(n)[0] == 'method' and callee(n)[1] in names


def xcall(n, *names):
    """The node is a call of one of these library functions (unqualified names)."""
    return n.op == 'call' and callee(n)[0] == 'ext' and callee(n)[1].rsplit('.', 1)[-1] in names


def recv(n):
    """Receiver of a method call."""
    if n.op == 'call' and n.args[0].op in ('attr', 'bound', 'method'):
        return n.args[0].args[0]
    return None


def ename(e):
    """Unqualified name of the function called by an event."""
    if e.ctx and len(e.ctx) > 1 and getattr(e.ctx[1], 'name', None):
        f = e.ctx[1]
        return f.cls.name if f.name == '__init__' and f.cls else f.name
    if e.kind != 'call' or e.node is None:
        return None
    if e.node.op == 'call':
        return bname(e.node)
    if e.node.op == 'fn':
        return str(e.node.args[0]).rsplit('.', 1)[-1]
    if e.node.op in ('bound', 'method'):
        return str(e.node.args[-1]).rsplit('.', 1)[-1]
    return None


def arg(call, name, pos=None):
    """Argument of a call by keyword or position."""
    for k, v in call.args[2]:
        if k == name:
            return v
    if pos is not None and len(call.args[1]) > pos:
        return call.args[1][pos]
    return None


def branches(e):
    """Branch conditions of an event."""
    return [(g, p) for g, p, k in e.guards if k in ('br', 'noret')]


def iters(e):
    """Iterables of the loops around an event, outermost first."""
    return [g.args[0] for g, p, k in e.guards if k == 'loop' and g.op == 'iter']


def leaves(n, ip=None, conds=()):
    """(conditions, value) of each way the value can come about."""
    if n.op == 'ite':
        yield from leaves(n.args[1], ip, (*conds, (n.args[0], True)))
        yield from leaves(n.args[2], ip, (*conds, (n.args[0], False)))
    elif n.op == 'phi':
        for x in n.args:
            if getattr(x, 'op', None):
                yield from leaves(x, ip, conds)
    else:
        yield conds, n


def text(n):
    """Parts of a string built from pieces: constants joined, other pieces as nodes."""
    out = []

    def add(x):
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        elif x.op == 'const':
            add(str(cval(x)))
        elif x.op == 'fstr':
            for y in x.args:
                add(y)
        elif x.op == 'binop' and x.args[0] == '+' and any(is_text(y) for y in x.args[1:3]):
            add(x.args[1])
            add(x.args[2])
        elif xcall(x, 'str') and len(x.args[1]) == 1:
            add(x.args[1][0])
        elif mcall(x, 'join') and is_const(recv(x)) and x.args[1] and x.args[1][0].op in ('list', 'tuple'):
            for i, y in enumerate(x.args[1][0].args):
                if i:
                    add(cval(recv(x)))
                add(y)
        else:
            out.append(x)

    add(n)
    return out


def is_text(n):
    return n.op == 'fstr' or (n.op == 'const' and isinstance(cval(n), str)) or mcall(n, 'join') or xcall(n, 'str') or (
        n.op == 'binop' and n.args[0] == '+' and any(is_text(y) for y in n.args[1:3]))


def fields(n, sep='-'):
    """A string split at the separator: each field is a constant or a node, or None when mixed."""
    out, cur = [], []
    for p in text(n):
        if isinstance(p, str):
            bits = p.split(sep)
            for i, b in enumerate(bits):
                if i:
                    out.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    out.append(cur)
    return [c[0] if len(c) == 1 else ('' if not c else None) for c in out]


def reach(n, ip):
    """Everything the value may contain, including stored and appended elements."""
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))
        for a in ip.appends.get(x, ()):
            todo.append(a[1])
        for s in ip.stores.get(x, ()):
            todo.extend(y for y in s[:2] if getattr(y, 'op', None))
        if x in ip.mu_back:
            b = ip.mu_back[x]
            todo.extend(b if isinstance(b, (list, set, tuple)) else [b])


VIEW_METHODS = {
    'copy', 'astype', 'to_numpy', 'dropna', 'sort_index', 'reset_index', 'sort_values', 'to_frame', 'squeeze', 'fillna', 'reindex',
    'rename_axis', 'set_index', 'ravel', 'flatten',
}


def root(n, ip=None, methods=VIEW_METHODS):
    """The table a selection or copy is taken from."""
    while True:
        if n.op == 'index':
            n = n.args[0]
        elif n.op == 'attr' and n.args[1] in ('loc', 'iloc', 'values', 'at', 'iat', 'T'):
            n = n.args[0]
        elif n.op == 'call' and mcall(n, *methods):
            n = recv(n)
        elif xcall(n, 'array', 'asarray', 'Series', 'DataFrame', 'atleast_2d', 'atleast_1d') and n.args[1] and n.args[1][0].op not in ('const', 'dict', 'list', 'comp'):
            n = n.args[1][0]
        else:
            return n


def increasing(ip, it, seq=None):
    """Whether iterating visits numbers held as strings in increasing numeric order (None: not known)."""
    x = it
    while xcall(x, 'list', 'tuple', 'enumerate', 'iter') and x.args[1]:
        x = x.args[1][0]
    if mcall(x, 'unique', 'tolist', 'to_list', 'copy'):
        return increasing(ip, recv(x), seq)
    if xcall(x, 'sorted'):
        return numeric(dict(x.args[2]))
    if xcall(x, 'reversed'):
        r = increasing(ip, x.args[1][0], seq)
        return None if r is None else False
    sorts = [e for e in ip.events if e.kind == 'call' and e.node is not None and mcall(e.node, 'sort', 'reverse')
             and recv(e.node) is x and (seq is None or e.seq < seq)]
    if sorts:
        if bname(sorts[-1].node) == 'reverse':
            return False
        return numeric(dict(sorts[-1].node.args[2]))
    if x.op in ('list', 'comp') or mcall(x, 'get_level_values'):
        return False
    return None


def numeric(kw):
    rev = kw.get('reverse')
    if rev is not None:
        if not is_const(rev):
            return None
        if cval(rev):
            return False
    key = kw.get('key')
    if key is None:
        return False
    if key.op == 'ext' and key.args[0] in ('builtins.int', 'builtins.float'):
        return True
    if key.op == 'ext' and key.args[0] in ('builtins.str', 'builtins.len'):
        return False
    return None


def late_captures(ip, n):
    """Variables a nested function reads when it is called and that the enclosing function changes after defining it."""
    if n not in ip.closures:
        return []
    f, fr = ip.closures[n]
    inner = f.node
    outer = getattr(getattr(fr, 'func', None), 'node', None)
    if outer is None:
        return []
    a = inner.args
    own = {x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg) if x is not None}
    body = inner.body if isinstance(inner.body, list) else [inner.body]
    read = set()
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name):
                (read if isinstance(x.ctx, ast.Load) else own).add(x.id)
    free = read - own
    loops = [x for x in ast.walk(outer) if isinstance(x, (ast.For, ast.While)) and any(y is inner for y in ast.walk(x))]
    out = []
    for x in ast.walk(outer):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in free:
            if any(x is y for y in ast.walk(inner)):
                continue
            later = (x.lineno, x.col_offset) > (inner.end_lineno, inner.end_col_offset)
            if later or any(x is y for lp in loops for y in ast.walk(lp)):
                out.append(x.id)
    return sorted(set(out))


_ = alts
