"""Order instability: values whose element order differs between processes.

Sources are sets (iteration order depends on string hashing) and directory
listings.  A value built by walking one is *unstable* until it is sorted,
grouped, reindexed or only used for membership, size or lookup by key.
"""

from __future__ import annotations

from .flow import alts, callee, children, cval, is_const

SET_METHODS = {
    'union', 'intersection', 'difference', 'symmetric_difference',
}
LISTING = {
    'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk', 'pathlib.Path.cwd.iterdir',
}
LISTING_METHODS = {'iterdir', 'rglob', 'glob'}

# functions / methods whose result does not depend on the order of the argument
NEUTRAL_FUNCS = {
    'builtins.sorted', 'builtins.len', 'builtins.set', 'builtins.frozenset', 'builtins.min',
    'builtins.max', 'builtins.any', 'builtins.all', 'builtins.bool', 'builtins.isinstance',
    'numpy.unique', 'builtins.dict.fromkeys_', 'builtins.type', 'numpy.isin', 'pandas.isna',
    'math.fsum', 'os.path.join', 'builtins.print',
}
NEUTRAL_METHODS = {
    'sort_index', 'sort_values', 'groupby', 'reindex', 'isin', 'issubset', 'issuperset', 'isdisjoint',
    'get', 'union', 'intersection', 'difference', 'symmetric_difference', 'nunique', 'any', 'all',
    'max', 'min', 'unlink', 'remove', 'msg', 'warning', 'add', 'discard', 'startswith', 'endswith',
    'loc', 'is_file', 'exists', 'get_level_values_sorted', 'duplicated',
}
REDUCE = {'max', 'min', 'any', 'all', 'nunique', 'isin', 'issubset'}
# positional assembly: the labels are lost, so no later sorting can help
STACK = {
    'numpy.column_stack', 'numpy.hstack', 'numpy.vstack', 'numpy.stack', 'numpy.concatenate',
    'numpy.array', 'numpy.asarray', 'numpy.dstack', 'numpy.row_stack',
}
NEUTRAL_ATTRS = {'loc', 'at', 'size', 'shape', 'empty', 'ndim', 'dtype', 'dtypes', 'names', 'nlevels'}
DRAWS = {
    'random', 'normal', 'permutation', 'permuted', 'shuffle', 'choice', 'multinomial', 'integers', 'uniform',
    'standard_normal', 'multivariate_normal', 'lognormal', 'binomial', 'poisson', 'exponential', 'beta',
    'gamma', 'weibull', 'rvs', 'bytes', 'spawn', 'randint', 'rand', 'randn', 'sample',
}


def content(r):
    return bool(r) and r.startswith('!')


class Order:
    def __init__(self, ip):
        self.ip = ip
        self._set = {}
        self.extra_sets = set()
        self.tainted = {}  # node -> reason (containers written from an unordered loop)
        self._u = {}
        self.findings = []
        self.loops_seen = 0

    # -- sets ----------------------------------------------------------
    def is_set(self, n, depth=0):
        if n in self._set:
            return self._set[n]
        if depth > 12:
            return False
        self._set[n] = False
        r = self._is_set(n, depth + 1)
        self._set[n] = r
        return r

    def _is_set(self, n, d):
        ip = self.ip
        if n in self.extra_sets:
            return True
        o = n.op
        if o == 'set':
            return not (n.args and all(x.op == 'const' and not isinstance(cval(x), str) for x in n.args))
        if o == 'comp':
            return n.args[0] == 'set'
        if o in ('ite', 'phi', 'mu'):
            return any(self.is_set(x, d) for x in alts(n, ip) if x is not n)
        if o == 'binop' and n.args[0] in ('|', '&', '-', '^'):
            return self.is_set(n.args[1], d) or (n.args[0] != '-' and self.is_set(n.args[2], d)) or self._keys(n.args[1])
        t = ip.node_type(n)
        if t and t[0] in ('ann', 'cont') and t[1] in ('builtins.set', 'builtins.frozenset', 'typing.Set'):
            return True
        if o == 'call':
            kind, name = callee(n)
            if kind == 'ext' and name in ('builtins.set', 'builtins.frozenset'):
                return bool(n.args[1])
            if kind == 'method' and name in SET_METHODS | {'copy'}:
                return self.is_set(n.args[0].args[0], d)
        return False

    def _keys(self, n):
        return n.op == 'call' and callee(n) == ('method', 'keys')

    def listing(self, n):
        kind, name = callee(n)
        return (kind == 'ext' and name in LISTING) or (kind == 'method' and name in LISTING_METHODS)

    # -- unstable values -------------------------------------------------
    def unstable(self, n):
        """Reason string when the element order of ``n`` is unstable, else None."""
        if n in self._u:
            return self._u[n]
        self._u[n] = None
        r = self._unstable(n)
        self._u[n] = r
        return r

    def iter_reason(self, n):
        if self.is_set(n):
            return 'iteration over a set'
        return self.unstable(n)

    def _unstable(self, n):
        ip = self.ip
        if n in self.tainted:
            return self.tainted[n]
        o = n.op
        if o in ('const', 'param', 'ext', 'fn', 'clsref', 'modref', 'glob', 'set', 'cmp', 'new', 'fresh'):
            return None
        if o == 'pos':
            r = self.iter_reason(n.args[0])
            return '!' + r.lstrip('!') if r else None
        if o == 'binop' and n.args[0] == '+':
            return self.iter_reason(n.args[1]) or self.iter_reason(n.args[2])
        if o == 'elem':
            r = self.unstable(n.args[0])
            return r if content(r) else None
        if o == 'comp' and n.args[0] == 'set':
            return None
        if o in ('comp', 'dcomp'):
            its = n.args[2]
            if o == 'dcomp':
                r = self.unstable(n.args[1])
                if content(r):
                    return r
            for it in its:
                r = self.iter_reason(it)
                if r:
                    return r
            return None
        if o == 'index':
            b = n.args[0]
            if b.op == 'call' and callee(b)[0] == 'ext' and callee(b)[1] in ('builtins.list', 'builtins.tuple'):
                return self.unstable(b)
            if b.op == 'attr' and b.args[1] in ('iloc', 'iat', 'columns', 'index'):
                return self.unstable(b.args[0])
            if b.op == 'comp' or is_const(n.args[1]) and isinstance(cval(n.args[1]), int) and b.op != 'tuple':
                return self.unstable(b)
            r = self.unstable(b)
            if content(r):
                return r
            return self.unstable(n.args[1])
        if o == 'attr':
            if n.args[1] in NEUTRAL_ATTRS:
                return None
            return self.unstable(n.args[0])
        if o == 'call':
            kind, name = callee(n)
            if self.listing(n):
                return 'order of a directory listing'
            pos, kw = n.args[1], n.args[2]
            if kind == 'method':
                recv = n.args[0].args[0]
                if name in NEUTRAL_METHODS:
                    r = self.unstable(recv) if name not in REDUCE else None
                    return r if content(r) else None
                if name == 'pop' and self.is_set(recv):
                    return 'an arbitrary element of a set'
                if recv.op == 'const' and name == 'join' and pos:
                    return self.iter_reason(pos[0])
                if name in ('keys', 'values', 'items', 'copy', 'to_list', 'tolist', 'to_numpy'):
                    return self.unstable(recv)
                for x in (recv, *pos, *[v for _k, v in kw]):
                    r = self.unstable(x)
                    if r:
                        return r
                for _v, rr in ip.cb_results.get(n, ()):
                    r = self.unstable(rr)
                    if r:
                        return r
                return None
            if kind == 'ext':
                if name in NEUTRAL_FUNCS:
                    return None
                if name in ('builtins.sum',):
                    return None
                for x in (*pos, *[v for _k, v in kw]):
                    r = self.iter_reason(x)
                    if r:
                        return '!' + r.lstrip('!') if name in STACK else r
                return None
            # calling a value (e.g. an interpolator)
            for x in (n.args[0], *pos, *[v for _k, v in kw]):
                r = self.unstable(x)
                if r:
                    return r
            return None
        if o == 'fstr':
            for x in children(n):
                r = self.iter_reason(x)
                if r:
                    return r
            return None
        for x in children(n, ip if o in ('mu', 'list') else None):
            r = self.unstable(x)
            if r:
                return r
        return None

    # -- loops -----------------------------------------------------------
    def base(self, t):
        while t.op == 'attr' and t.args[1] in ('loc', 'at', 'T') or t.op == 'index':
            t = t.args[0]
        return t

    def depends(self, n, it):
        """n mentions an element of the iterable ``it``."""
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x is it or (x.op in ('elem', 'pos') and x.args[0] is it):
                return True
            todo.extend(children(x))
        return False

    def run(self):
        ip = self.ip
        # `frozenset <= y`: y is a set as well
        for x in list(ip.table.values()):
            if x.op == 'cmp' and x.args[0] in ('<=', '<', '>=', '>'):
                a, b = x.args[1], x.args[2]
                if self.is_set(a) and not self.is_set(b):
                    self.extra_sets.add(b)
                elif self.is_set(b) and not self.is_set(a):
                    self.extra_sets.add(a)
        self._set.clear()
        for _round in range(4):
            before = len(self.tainted)
            self._u.clear()
            self.findings = []
            self._pass()
            if len(self.tainted) == before:
                break
        return self.findings

    def _pass(self):
        ip = self.ip
        loops = set()
        for e in ip.events:
            why = it = None
            for L in e.loops:
                if L.iter is not None:
                    w = self.iter_reason(L.iter)
                    if w:
                        why, it = w, L.iter
                        loops.add(id(L))
            if why is None:
                self._sink(e)
                continue
            n = e.node
            if e.kind == 'call' and n is not None:
                kind, name = callee(n)
                if kind == 'method':
                    recv = n.args[0].args[0]
                    if name in ('append', 'extend', 'insert', 'appendleft', 'setdefault', 'update'):
                        if self.is_set(recv):
                            continue
                        self.tainted.setdefault(self.base(recv), why)
                    elif name in DRAWS and self.generator(recv):
                        self.findings.append((e, f'random numbers are drawn in the order of {why}'))
                elif kind == 'ext' and name.startswith(('numpy.random.', 'random.')):
                    self.findings.append((e, f'random numbers are drawn in the order of {why}'))
            elif e.kind == 'store_index':
                self._content_store(e)
                t = e.target
                if t.op == 'attr' and t.args[1] in ('iloc', 'iat'):
                    continue
                key = e.node
                if key is not None and not self.depends(key, it):
                    continue
                if e.aug:
                    continue
                self.tainted.setdefault(self.base(t), why)
            elif e.kind in ('return', 'ireturn', 'yield') and n is not None and self.depends(n, it) :
                if e.kind != 'yield' and e.func.qual == self._loop_func(e, it):
                    self.findings.append((e, f'the returned element depends on {why}'))
            self._sink(e)
        self.loops_seen = len(loops)

    def _loop_func(self, e, it):
        for L in reversed(e.loops):
            if L.iter is it:
                return e.func.qual if self._contains(e.func.node, L.node) else None
        return None

    @staticmethod
    def _contains(fn, node):
        import ast

        return any(x is node for x in ast.walk(fn))

    def generator(self, recv):
        t = self.ip.node_type(recv)
        if t and t[0] == 'ann' and 'Generator' in str(t[1]):
            return True
        return any(
            (x.op == 'attr' and 'rng' in str(x.args[1]))
            or (x.op == 'param' and 'rng' in str(x.args[1]))
            or (x.op == 'call' and callee(x)[1] in ('numpy.random.default_rng', 'numpy.random.RandomState'))
            for x in alts(recv, self.ip)
        )

    def _content_store(self, e):
        if e.value is not None and not isinstance(e.value, str):
            r = self.unstable(e.value)
            if content(r):
                self.tainted[self.base(e.target)] = r

    def _sink(self, e):
        if e.kind == 'store_index':
            self._content_store(e)
        v = None
        what = None
        if e.kind == 'store_attr' and e.value is not None:
            v, what = e.value, f'attribute .{cval(e.node) if e.node.op == "const" else e.node}'
        elif e.kind == 'return':
            v, what = e.node, 'the returned value'
        elif e.kind == 'call' and e.node is not None:
            kind, name = callee(e.node)
            if kind == 'method' and name in ('to_csv', 'to_json', 'to_excel', 'to_pickle', 'write', 'writelines'):
                for x in (e.node.args[0].args[0], *e.node.args[1]):
                    r = self.unstable(x)
                    if r:
                        self.findings.append((e, f'written data depends on {r.lstrip(chr(33))}'))
                return
            if kind == 'ext' and name in ('json.dump',):
                r = self.unstable(e.node.args[1][0])
                if r:
                    self.findings.append((e, f'written data depends on {r.lstrip(chr(33))}'))
                return
        if v is not None:
            r = self.unstable(v)
            if r:
                self.findings.append((e, f'{what} depends on {r.lstrip(chr(33))}'))
