"""May-alias / mutation analysis on the value-flow graph.

``mutations(interp)`` turns effect events into (event, target, depth-kind)
triples.  ``roots(node)`` yields the origin values whose storage the node may
share, following references, views and shallow copies but not real copies.
"""

from __future__ import annotations

from .flow import alts, callee, cval, is_const

# method name -> the result may share storage with the receiver
VIEW_METHODS = {
    'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes', 'to_numpy',
    'get', 'setdefault', 'values', 'items', '__getitem__', 'diagonal', 'xs',
    'infer_objects', 'pipe', 'rename_axis', 'set_axis', 'to_frame', 'itertuples', 'iterrows',
    'keys', 'head', 'tail', 'pop', 'get_level_values_view', '__iter__', 'mappings',
}
VIEW_METHODS -= {'get_level_values_view', 'mappings', 'rename_axis', 'set_axis', 'keys'}
VIEW_ATTRS = {
    'values', 'T', 'loc', 'iloc', 'at', 'iat', 'flat', 'real', 'imag', 'array', 'data',
}
VIEW_FUNCS = {
    'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.asarray', 'numpy.squeeze',
    'numpy.ravel', 'numpy.transpose', 'numpy.reshape', 'numpy.broadcast_to',
    'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.swapaxes', 'numpy.expand_dims',
    'numpy.moveaxis', 'builtins.reversed', 'builtins.iter', 'typing.cast', 'builtins.next',
    'numpy.split', 'numpy.array_split',
}
# constructors whose result may share the element storage of the argument
WRAP_FUNCS = {'pandas.DataFrame', 'pandas.Series'}
SHALLOW_FUNCS = {
    'builtins.dict', 'builtins.list', 'builtins.tuple', 'builtins.set', 'copy.copy',
    'builtins.sorted', 'builtins.enumerate', 'builtins.zip', 'collections.OrderedDict',
    'collections.defaultdict', 'builtins.filter', 'builtins.max', 'builtins.min',
}

CONTAINER_MUT = {
    'append', 'extend', 'insert', 'update', 'pop', 'popitem', 'clear', 'remove', 'sort',
    'reverse', 'setdefault', 'add', 'discard', 'fill', 'put', 'resize', 'itemset', 'partition',
    '__setitem__', '__delitem__', 'setflags', 'appendleft', 'popleft', 'move_to_end',
    'difference_update', 'intersection_update', 'symmetric_difference_update',
}
FUNC_MUT = {  # external function -> index of mutated argument
    'numpy.put': 0, 'numpy.place': 0, 'numpy.copyto': 0, 'numpy.fill_diagonal': 0,
    'numpy.putmask': 0, 'random.shuffle': 0, 'numpy.random.shuffle': 0, 'heapq.heappush': 0,
    'heapq.heapify': 0, 'heapq.heappop': 0, 'builtins.setattr': 0, 'builtins.delattr': 0,
    'numpy.add.at': 0, 'bisect.insort': 0, 'numpy.put_along_axis': 0, 'operator.setitem': 0,
    'numpy.multiply.at': 0, 'numpy.subtract.at': 0,
}
# attributes whose assignment modifies a data container
DATA_ATTRS = {
    'columns', 'index', 'name', 'names', 'values', 'shape', 'dtype', 'T', 'flags', 'attrs',
}

DICTISH = {'builtins.dict', 'collections.OrderedDict', 'collections.defaultdict', 'typing.Mapping'}


class Mutation:
    def __init__(self, event, target, level, how):
        self.event = event
        self.target = target
        self.level = level  # 'object' (this very object) or 'storage' (element buffer)
        self.how = how


def immutable_type(ip, n):
    t = ip.node_type(n)
    if not t:
        return False
    if t[0] == 'ann':
        return t[1] in {
            'builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool',
            'builtins.tuple', 'builtins.bytes', 'pathlib.Path', 'builtins.NoneType',
        }
    return False


def mutations(ip):
    out = []
    for e in ip.events:
        k = e.kind
        if k == 'store_index':
            tgt = e.target
            lvl = 'object'
            if tgt.op == 'attr' and tgt.args[1] in VIEW_ATTRS:
                lvl = 'storage'
            out.append(Mutation(e, tgt, lvl, 'item assignment'))
        elif k == 'del_index':
            out.append(Mutation(e, e.target, 'object', 'item deletion'))
        elif k in ('store_attr', 'del_attr'):
            out.append(Mutation(e, e.target, 'object', f'attribute assignment .{_attrname(e)}'))
        elif k == 'store_global':
            out.append(Mutation(e, e.target, 'object', 'global rebinding'))
        elif k == 'aug':
            if e.target.op in ('const', 'binop', 'fstr', 'unop'):
                continue
            if immutable_type(ip, e.target):
                continue
            out.append(Mutation(e, e.target, 'storage', f'in-place {e.aug}='))
        elif k == 'call':
            n = e.node
            if n is None or n.op != 'call':
                continue
            kind, name = callee(n)
            kws = dict(x for x in n.args[2] if isinstance(x[0], str))
            if kind == 'method':
                recv = n.args[0].args[0]
                if name in CONTAINER_MUT:
                    if name in ('update', 'insert', 'pop', 'add', 'put') and recv.op in ('ext', 'modref'):
                        continue
                    out.append(Mutation(e, recv, 'object', f'.{name}()'))
                elif 'inplace' in kws and not is_const(kws['inplace'], False):
                    out.append(Mutation(e, recv, 'object', f'.{name}(inplace=True)'))
                elif name == 'shuffle' and n.args[1]:
                    out.append(Mutation(e, n.args[1][0], 'storage', '.shuffle()'))
                elif name == 'at' and len(n.args[1]) >= 2:
                    out.append(Mutation(e, n.args[1][0], 'storage', 'ufunc.at'))
            elif kind == 'ext':
                if name in FUNC_MUT and len(n.args[1]) > FUNC_MUT[name]:
                    out.append(Mutation(e, n.args[1][FUNC_MUT[name]], 'storage', f'{name}()'))
                if name == 'numpy.nan_to_num' and 'copy' in kws and not is_const(kws['copy'], True):
                    out.append(Mutation(e, n.args[1][0], 'storage', 'nan_to_num(copy=False)'))
            if 'out' in kws and not is_const(kws['out'], None) and kind in ('ext', 'method'):
                o = kws['out']
                for x in o.args if o.op == 'tuple' else [o]:
                    out.append(Mutation(e, x, 'storage', 'out='))
    return out


def _attrname(e):
    return cval(e.node) if e.kind == 'store_attr' else e.value


def dictish(ip, n, depth=0):
    """True if the value is known to be a dict (copy() is then shallow)."""
    if depth > 6:
        return False
    if n.op in ('dict', 'dcomp'):
        return True
    if n.op == 'glob':
        _m, ex = ip.glob_expr(n)
        import ast

        return isinstance(ex, (ast.Dict, ast.DictComp)) or ex is None
    t = ip.node_type(n)
    if t:
        return (t[0] == 'cont' and t[1] in DICTISH | {'builtins.list'}) or (
            t[0] == 'ann' and t[1] in DICTISH | {'builtins.list'}
        )
    if n.op in ('ite', 'phi', 'mu'):
        return any(dictish(ip, x, depth + 1) for x in alts(n, ip) if x is not n)
    if n.op == 'call':
        kind, name = callee(n)
        if kind == 'method' and name == 'copy':
            return dictish(ip, n.args[0].args[0], depth + 1)
        if kind == 'ext' and name in ('builtins.dict', 'json.load', 'json.loads', 'copy.copy'):
            return True
    if n.op == 'index':
        b = n.args[0]
        if dictish(ip, b, depth + 1):
            return None  # unknown: element of a dict
    return False


FANCY = ('cmp', 'list', 'comp', 'and', 'or', 'not', 'unop')


def selects_copy(k):
    """A pandas/numpy selection that always copies (mask or list)."""
    if k.op in FANCY:
        return True
    if k.op == 'tuple':
        return any(selects_copy(x) for x in k.args)
    if k.op == 'binop' and k.args[0] in ('&', '|'):
        return True
    if k.op == 'call':
        kind, name = callee(k)
        if name in ('isin', 'isna', 'notna', 'duplicated', 'isnull', 'notnull', 'intersection',
                    'numpy.isnan', 'numpy.where', 'difference', 'union', 'tolist', 'to_list',
                    'builtins.list', 'builtins.sorted', 'get_level_values', 'numpy.isin', 'unique'):
            return True
    return False


def _step(k):
    if k.op == 'const':
        return '[%r]' % (cval(k),)
    return '[]'


def roots(ip, node, level='storage', in_place_flags=('inplace',)):
    """Origins (param/glob/default nodes) whose storage ``node`` may share.

    Returns ``[(root, path)]``; path lists the access steps below the root:
    ``.attr``, ``['key']`` or ``[]`` (unknown element).
    """
    out = {}
    seen = set()
    todo = [(node, ())]
    while todo:
        n, path = todo.pop()
        if (n, path[:4]) in seen or len(path) > 9:
            continue
        seen.add((n, path[:4]))
        o = n.op
        if o == 'ite' and n.args[0].op == 'param' and n.args[0].args[1] in in_place_flags:
            # working in place is the caller's explicit choice
            todo.append((n.args[2], path))
            continue
        if o in ('ite', 'phi', 'mu'):
            for x in alts(n, ip):
                if x is not n:
                    todo.append((x, path))
            continue
        if o in ('param', 'glob', 'default'):
            out.setdefault((n, path), None)
            continue
        if o == 'attr':
            b, name = n.args
            if name in VIEW_ATTRS:
                todo.append((b, path))
            else:
                todo.append((b, ('.' + name, *path)))
            continue
        if o == 'index':
            b, k = n.args
            if selects_copy(k):
                continue
            if b.op == 'attr' and b.args[1] in VIEW_ATTRS:
                todo.append((b.args[0], path))
                continue
            todo.append((b, (_step(k), *path)))
            for v in ip.dict_elem_values(b):
                todo.append((v, path))
            continue
        if o in ('elem', 'rest', 'enter', 'star'):
            b = n.args[0]
            if b.op == 'call':
                kind, nm = callee(b)
                if nm == 'keys' or (kind == 'ext' and nm == 'builtins.range'):
                    continue
            todo.append((b, ('[]', *path) if o != 'rest' else path))
            continue
        if o == 'call':
            kind, name = callee(n)
            args = n.args[1]
            kws = dict(x for x in n.args[2] if isinstance(x[0], str))
            below = bool(path) and path[0].startswith('[')
            if kind == 'method':
                recv = n.args[0].args[0]
                if name == 'copy':
                    d = dictish(ip, recv)
                    if kws.get('deep') is not None and is_const(kws['deep'], False):
                        todo.append((recv, path))
                    elif (d is None or d) and below:
                        todo.append((recv, path))
                elif name in ('get', 'pop', 'setdefault'):
                    if args:
                        todo.append((recv, (_step(args[0]), *path)))
                    for a in args[1:]:
                        todo.append((a, path))
                elif name in ('items', 'values'):
                    todo.append((recv, path))
                elif name == 'to_frame':
                    if level == 'storage' and not (
                        recv.op == 'attr' and recv.args[1] in ('index', 'columns')
                    ):
                        todo.append((recv, path))
                elif name == 'to_numpy':
                    todo.append((recv, path))
                elif name in ('astype', 'reindex', 'infer_objects', 'rename', 'set_axis'):
                    if 'copy' in kws and is_const(kws['copy'], False):
                        todo.append((recv, path))
                elif name in VIEW_METHODS:
                    todo.append((recv, path))
            elif kind == 'ext':
                if name == 'numpy.array' and 'copy' in kws and not is_const(kws['copy'], True):
                    todo.append((args[0], path))
                elif name == 'numpy.nan_to_num' and 'copy' in kws and not is_const(kws['copy'], True):
                    todo.append((args[0], path))
                elif name in VIEW_FUNCS:
                    for a in args[:1]:
                        todo.append((a, path))
                elif name in WRAP_FUNCS:
                    if 'copy' in kws and is_const(kws['copy'], True):
                        continue
                    src = args[0] if args else kws.get('data')
                    if src is not None and level == 'storage':
                        todo.append((src, path))
                elif name in SHALLOW_FUNCS and below:
                    for a in args:
                        todo.append((a, path))
            continue
        if o in ('list', 'tuple', 'set', 'dict'):
            if path and path[0].startswith('['):
                if o == 'dict':
                    vals = ip.dict_elem_values(n)
                else:
                    vals = [x for x in n.args if x.op != 'star'] + [
                        v for kd, v, _g in ip.appends.get(n, ()) if kd == 'append'
                    ]
                    for kd, v, _g in ip.appends.get(n, ()):
                        if kd == 'extend':
                            todo.append((v, path))
                for v in vals:
                    todo.append((v, path[1:]))
                for v in n.args:
                    if o != 'dict' and v.op == 'star':
                        todo.append((v.args[0], path))
                    if o == 'dict' and v[0].op == 'dstar':
                        todo.append((v[0].args[0], path))
            continue
        if o in ('comp', 'dcomp') and path and path[0].startswith('['):
            todo.append((n.args[1], path[1:]))
            continue
    return list(out)
