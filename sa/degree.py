"""Dimension (degree) analysis on the value-flow graph.

A value has degree d in a unit factor f when replacing f by c*f multiplies
the value by c**d; the logarithm of such a value is shifted by d*log(c).
Degrees are inferred from the operators and a table of numerical library
functions; additions, comparisons through min/max and distribution calls
must join values of the same degree.
"""

from __future__ import annotations

from fractions import Fraction

from .flow import alts, callee, children, cval, is_const, show

ANY = ('A',)
UNK = None
ONE = ('L', frozenset())


def L(**kw):
    return ('L', frozenset((k, Fraction(v)) for k, v in kw.items() if v))


def lin(d):
    return ('L', frozenset((k, v) for k, v in d.items() if v))


def name(d):
    if d is UNK:
        return 'unknown'
    if d == ANY:
        return 'any'
    t = '*'.join(f'{k}^{v}' if v != 1 else str(k) for k, v in sorted(d[1])) or '1'
    return t if d[0] == 'L' else f'log({t})'


def mul(a, b, sign=1):
    if a is UNK or b is UNK:
        return UNK
    if a == ANY or b == ANY:
        return ANY
    if a[0] == 'G' or b[0] == 'G':
        return UNK
    d = dict(a[1])
    for k, v in b[1]:
        d[k] = d.get(k, 0) + sign * v
    return lin(d)


def power(a, e):
    if a is UNK or a == ANY:
        return a
    if a[0] == 'G':
        return UNK
    return lin({k: v * e for k, v in a[1]})


PASS = {
    'abs', 'array', 'asarray', 'atleast_1d', 'atleast_2d', 'tile', 'repeat', 'copy', 'mean', 'sum', 'median', 'std',
    'sort', 'min', 'max', 'amin', 'amax', 'nanmin', 'nanmax', 'nanmean', 'nanstd', 'nanmedian', 'ravel', 'squeeze',
    'transpose', 'percentile', 'quantile', 'round', 'ascontiguousarray', 'broadcast_to', 'reshape', 'unique',
    'concatenate', 'vstack', 'hstack', 'stack', 'column_stack', 'append', 'diag', 'flip', 'roll', 'asfarray', 'fabs',
    'DataFrame', 'Series', 'concat', 'deepcopy', 'cast', 'to_numeric', 'float', 'list', 'tuple', 'nansum', 'diff',
    'cumsum', 'array_split', 'float64', 'expand_dims',
}
M_PASS = {
    'copy', 'astype', 'to_numpy', 'flatten', 'ravel', 'reshape', 'sum', 'mean', 'max', 'min', 'std', 'median', 'item',
    'tolist', 'fillna', 'dropna', 'squeeze', 'sort_index', 'loc', 'iloc', 'get', 'reindex', 'drop', 'round', 'abs',
    'transpose', 'groupby', 'first', 'quantile', 'apply', 'set_index', 'reset_index', 'rename', 'to_frame', 'stack',
    'unstack', 'xs', 'infer_objects', 'clip', 'head', 'tail', 'agg', 'itertuples', 'items', 'values', 'select_dtypes',
}
A_PASS = {'T', 'values', 'loc', 'iloc', 'at', 'iat', 'real'}
JOIN = {'maximum', 'minimum', 'fmax', 'fmin'}
MULM = {'multiply', 'mul'}
DIVM = {'div', 'divide', 'truediv'}
COUNT = {'len', 'isna', 'isnan', 'isinf', 'any', 'all', 'isclose', 'argmin', 'argmax', 'argsort', 'sign', 'isfinite'}


class Degree:
    def __init__(self, ip, seed, seed_elem=None):
        self.ip = ip
        self.seed = seed
        self.seed_elem = seed_elem or (lambda n, k: UNK)
        self.memo = {}
        self.ememo = {}
        self.bad = []
        self.stack = set()
        self.events_for = None

    # ------------------------------------------------------------------
    def mismatch(self, n, a, b, what):
        self.bad.append((n, f'{what} joins {name(a)} with {name(b)} in {show(n, 4)[:160]}'))

    def join(self, n, a, b, what):
        if a is UNK or b is UNK:
            return UNK
        if a == ANY:
            return b
        if b == ANY or a == b:
            return a
        self.mismatch(n, a, b, what)
        return UNK

    def merge(self, ds):
        out = ANY
        for d in ds:
            if d is UNK:
                return UNK
            if d == ANY:
                continue
            if out == ANY:
                out = d
            elif out != d:
                return UNK
        return out

    # ------------------------------------------------------------------
    def deg(self, n):
        if n in self.memo:
            return self.memo[n]
        if n in self.stack:
            return ANY
        s = self.seed(n)
        if s is not UNK:
            self.memo[n] = s
            return s
        self.stack.add(n)
        try:
            r = self._deg(n)
        finally:
            self.stack.discard(n)
        self.memo[n] = r
        return r

    def _deg(self, n):
        o, a = n.op, n.args
        if o == 'const':
            v = cval(n)
            if isinstance(v, bool) or isinstance(v, str):
                return UNK
            if v is None:
                return ANY
            if isinstance(v, (int, float)):
                return ANY if v == 0 or v != v or v in (float('inf'), float('-inf')) else ONE
            return UNK
        if o == 'ext':
            return ANY if a[0] in ('numpy.nan', 'numpy.inf', 'math.nan', 'math.inf', 'numpy.NaN', 'pandas.NA') else UNK
        if o == 'glob':
            m, e = self.ip.glob_expr(n)
            if e is not None:
                import ast
                t = ast.unparse(e)
                if 'nextafter' in t or t.replace('.', '').replace('e-', '').isdigit():
                    return ANY
            return UNK
        if o in ('never', 'unbound'):
            return ANY
        if o == 'unop':
            return self.deg(a[1]) if a[0] in ('-', '+') else UNK
        if o == 'binop':
            return self.bin(n, a[0], self.deg(a[1]), self.deg(a[2]), a[2])
        if o == 'ite':
            return self.merge([self.deg(a[1]), self.deg(a[2])])
        if o == 'phi':
            return self.merge([self.deg(x) for x in a])
        if o == 'mu':
            ds = [self.deg(a[1])]
            if n in self.ip.mu_back:
                ds.append(self.deg(self.ip.mu_back[n]))
            return self.merge(ds)
        if o == 'index':
            if is_const(a[1]) and isinstance(cval(a[1]), (int, str)):
                r = self.elem(a[0], cval(a[1]))
                if r is not UNK:
                    return r
            return self.deg(a[0])
        if o in ('elem', 'rest'):
            return self.deg(a[0])
        if o == 'attr':
            return self.deg(a[0]) if a[1] in A_PASS else UNK
        if o in ('list', 'tuple'):
            xs = list(a)
            if o == 'list' and n in self.ip.appends:
                xs += [v for _k, v, _g in self.ip.appends[n]]
            return self.merge([self.deg(x) for x in xs]) if xs else ANY
        if o == 'star':
            return self.deg(a[0])
        if o == 'comp':
            return self.deg(a[1])
        if o == 'call':
            return self.call(n)
        return UNK

    def bin(self, n, op, x, y, ynode=None):
        if op == '*':
            return mul(x, y)
        if op == '/':
            if y == ANY:
                return x if x == ANY else UNK
            return mul(x, y, -1)
        if op in ('+', '-'):
            if x is not UNK and y is not UNK and x != ANY and y != ANY:
                if x[0] == 'G' and y[0] == 'G':
                    if op == '-':
                        d = dict(x[1])
                        for k, v in y[1]:
                            d[k] = d.get(k, 0) - v
                        d = {k: v for k, v in d.items() if v}
                        return ('G', frozenset(d.items())) if d else ONE
                    d = dict(x[1])
                    for k, v in y[1]:
                        d[k] = d.get(k, 0) + v
                    return ('G', frozenset((k, v) for k, v in d.items() if v))
                if x[0] == 'G' and y == ONE:
                    return x
                if y[0] == 'G' and x == ONE:
                    return y if op == '+' else UNK
            return self.join(n, x, y, f'{op}')
        if op == '**':
            if ynode is not None and is_const(ynode) and isinstance(cval(ynode), (int, float)):
                return power(x, Fraction(cval(ynode)).limit_denominator(100))
            return UNK if x != ONE else ONE
        return UNK

    def call(self, n):
        kind, nm = callee(n)
        args, kws = n.args[1], dict((k, v) for k, v in n.args[2] if isinstance(k, str))
        if kind == 'ext':
            if nm.startswith('scipy.stats.'):
                return self.dist(n, nm, args, kws)
            b = nm.rsplit('.', 1)[-1]
            if not args:
                return UNK
            if b in JOIN and len(args) >= 2:
                return self.join(n, self.deg(args[0]), self.deg(args[1]), b)
            if b == 'nan_to_num':
                fill = kws.get('nan')
                d = self.deg(args[0])
                return self.join(n, d, self.deg(fill), b) if fill is not None else d
            if b in ('full', 'full_like') and len(args) > 1:
                return self.deg(args[1])
            if b in ('zeros', 'zeros_like'):
                return ANY
            if b in ('ones', 'ones_like'):
                return ONE
            if b == 'where' and len(args) == 3:
                return self.merge([self.deg(args[1]), self.deg(args[2])])
            if b == 'clip' and len(args) == 3:
                d = self.join(n, self.deg(args[0]), self.deg(args[1]), b)
                return self.join(n, d, self.deg(args[2]), b)
            if b in ('multiply',) and len(args) == 2:
                return mul(self.deg(args[0]), self.deg(args[1]))
            if b in ('divide', 'true_divide') and len(args) == 2:
                return self.bin(n, '/', self.deg(args[0]), self.deg(args[1]))
            if b in ('add', 'subtract') and len(args) == 2:
                return self.bin(n, '+' if b == 'add' else '-', self.deg(args[0]), self.deg(args[1]))
            if b in ('hypot',):
                return self.join(n, self.deg(args[0]), self.deg(args[1]), b)
            if b == 'sqrt':
                return power(self.deg(args[0]), Fraction(1, 2))
            if b == 'square':
                return power(self.deg(args[0]), 2)
            if b == 'var':
                return power(self.deg(args[0]), 2)
            if b in ('power', 'float_power') and len(args) == 2:
                return self.bin(n, '**', self.deg(args[0]), ONE, args[1])
            if b in ('log', 'log10', 'log2'):
                d = self.deg(args[0])
                if d is UNK or d == ANY or d == ONE:
                    return d
                if d[0] == 'G':
                    self.bad.append((n, f'logarithm of a logarithm: {show(n, 4)[:160]}'))
                    return UNK
                return ('G', d[1])
            if b == 'exp':
                d = self.deg(args[0])
                if d is UNK or d == ANY or d == ONE:
                    return d
                if d[0] == 'G':
                    return ('L', d[1])
                self.bad.append((n, f'exponential of a value of degree {name(d)}: {show(n, 4)[:160]}'))
                return UNK
            if b == 'interp' and len(args) >= 3:
                self.join(n, self.deg(args[0]), self.deg(args[1]), b)
                return self.deg(args[2])
            if b in ('nextafter',):
                return ANY
            if b in PASS:
                return self.deg(args[0])
            return UNK
        if kind == 'method':
            recv = n.args[0].args[0]
            if nm in MULM and args:
                return mul(self.deg(recv), self.deg(args[0]))
            if nm in DIVM and args:
                return self.bin(n, '/', self.deg(recv), self.deg(args[0]))
            if nm in ('add', 'sub', 'subtract') and args:
                return self.bin(n, '+' if nm == 'add' else '-', self.deg(recv), self.deg(args[0]))
            if nm == 'map':
                rs = [r for _v, r in self.ip.cb_results.get(n, ())]
                if rs:
                    return self.merge([self.deg(r) for r in rs])
                return UNK
            if nm == 'var':
                return power(self.deg(recv), 2)
            if nm in M_PASS:
                return self.deg(recv)
        return UNK

    def dist(self, n, nm, args, kws):
        parts = nm.split('.')
        d, m = parts[-2], parts[-1]
        npos = {'norm': (), 'uniform': (), 'expon': (), 'weibull_min': ('c',), 'lognorm': ('s',)}.get(d)
        if npos is None or m not in ('cdf', 'ppf', 'pdf', 'sf', 'isf', 'logpdf', 'logcdf'):
            return UNK
        names = ['x', *npos, 'loc', 'scale']
        v = dict(zip(names, args))
        v.update({('x' if k in ('q',) else k): x for k, x in kws.items()})
        if 'x' not in v:
            return UNK
        x = self.deg(v['x'])
        loc = self.deg(v['loc']) if 'loc' in v else ANY
        scale = self.deg(v['scale']) if 'scale' in v else ONE
        for p in npos:
            if p in v:
                dp = self.deg(v[p])
                if dp is not UNK and dp != ANY and dp != ONE:
                    self.mismatch(n, dp, ONE, f'shape parameter of {d}')
        if m in ('cdf', 'sf', 'pdf', 'logpdf', 'logcdf'):
            z = self.bin(n, '-', x, loc) if loc != ANY else x
            if z is not UNK and scale is not UNK and z != ANY and scale != ANY:
                if z[0] == 'G' or z != scale:
                    self.mismatch(n, z, scale, f'{d}.{m}')
                    return UNK
            if z is UNK or scale is UNK:
                return UNK
            if m == 'pdf':
                return power(scale, -1)
            return ONE
        # quantile
        if x is not UNK and x != ANY and x != ONE:
            self.mismatch(n, x, ONE, f'probability of {d}.{m}')
        if loc is UNK or scale is UNK:
            return UNK
        if loc == ANY:
            return scale
        if loc[0] == 'G':
            if scale not in (ONE, ANY):
                self.mismatch(n, loc, scale, f'{d}.{m}')
                return UNK
            return loc
        return self.join(n, loc, scale, f'{d}.{m}')

    # ------------------------------------------------------------------
    # element k along the parameter axis
    def elem(self, n, k):
        key = (n, k)
        if key in self.ememo:
            return self.ememo[key]
        self.ememo[key] = UNK
        r = self._elem(n, k)
        self.ememo[key] = r
        return r

    def _elem(self, n, k):
        s = self.seed_elem(n, k)
        if s is not UNK:
            return s
        if self.seed(n) is not UNK:
            return self.seed(n)
        o, a = n.op, n.args
        if o in ('list', 'tuple'):
            if any(x.op == 'star' for x in a) or (n in self.ip.appends):
                return self.deg(n)
            if isinstance(k, int) and -len(a) <= k < len(a):
                return self.deg(a[k])
            return self.deg(n)
        if o == 'dict' and all(is_const(kk) for kk, _v in a):
            for kk, v in a:
                if cval(kk) == k:
                    return self.deg(v)
            return UNK
        if o == 'ite':
            return self.merge([self.elem(a[1], k), self.elem(a[2], k)])
        if o == 'phi':
            return self.merge([self.elem(x, k) for x in a])
        if o == 'binop':
            x, y = self.elem(a[1], k), self.elem(a[2], k)
            return self.bin(n, a[0], x, y, a[2])
        if o == 'unop':
            return self.elem(a[1], k) if a[0] in '+-' else UNK
        if o == 'const':
            return self.deg(n)
        if o == 'index':
            if a[1].op == 'slice' and isinstance(k, int):
                lo = a[1].args[0]
                off = cval(lo) if is_const(lo) and cval(lo) is not None else 0
                if is_const(a[1].args[0]) and isinstance(off, int) and off >= 0:
                    return self.elem(a[0], k + off)
            if a[1].op == 'tuple' and isinstance(k, int) and a[1].args[0].op == 'slice':
                return self.elem(a[0], k)
            if a[1].op in ('list', 'tuple') and isinstance(k, int) and k < len(a[1].args) and is_const(a[1].args[k]):
                return self.elem(a[0], cval(a[1].args[k]))
            return self.deg(n)
        if o == 'elem':
            return self.elem(a[0], k)
        if o == 'attr' and a[1] in ('T', 'values'):
            return self.elem(a[0], k)
        if o == 'call':
            kind, nm = callee(n)
            if kind == 'ext' and a[1]:
                b = nm.rsplit('.', 1)[-1]
                if b in ('array', 'asarray', 'atleast_1d', 'atleast_2d', 'tile', 'copy', 'ascontiguousarray', 'deepcopy',
                         'squeeze', 'transpose', 'list', 'tuple', 'column_stack'):
                    return self.elem(a[1][0], k)
                if b in ('multiply', 'divide') and len(a[1]) == 2:
                    return self.bin(n, '*' if b == 'multiply' else '/', self.elem(a[1][0], k), self.elem(a[1][1], k))
            if kind == 'method' and nm in ('copy', 'astype', 'to_numpy', 'tolist', 'flatten'):
                return self.elem(a[0].args[0], k)
        return self.deg(n)

    def final(self, n, k):
        """Element k of ``n`` after every store made to it."""
        d = self.elem(n, k)
        hit = False
        for e in self.ip.events:
            if e.kind != 'store_index' or e.target is not n:
                continue
            c = covers(e.node, k)
            if c is False:
                continue
            if e.aug:
                v = self.bin(e.node, e.aug, d, self.deg(e.ctx) if c != 'slice' else self.elem(e.ctx, k), e.ctx)
            else:
                v = self.deg(e.value) if c == 'exact' else self.elem(e.value, k)
            g = [x for x in e.guards if x[2] not in ('noraise',)]
            hit = True
            d = v if c in ('exact', 'slice') and not live_guards(self.ip, g) else self.merge([d, v])
        del hit
        if n.op == 'ite':
            return self.merge([self.final(x, k) for x in n.args[1:]])
        if n.op == 'phi':
            return self.merge([self.final(x, k) for x in n.args])
        return d


def live_guards(ip, gs):
    out = []
    for g, p, _k in gs:
        t = ip.truth(g)
        if t is None or t != p:
            out.append((g, p))
    return out


def covers(key, k):
    if is_const(key):
        return 'exact' if cval(key) == k else False
    if key.op == 'slice' and isinstance(k, int):
        lo, hi, st = key.args
        if all(is_const(x) for x in key.args):
            r = range(*slice(cval(lo), cval(hi), cval(st)).indices(3))
            return 'slice' if k in r else False
    if key.op in ('list', 'tuple') and all(is_const(x) for x in key.args):
        return 'slice' if k in [cval(x) for x in key.args] else False
    return 'maybe'


def options(D, n, limit=24):
    """Degrees ``n`` can have, over the alternatives of its joins."""
    d = D.deg(n)
    if d is not UNK:
        return {d}
    if n.op == 'ite':
        return options(D, n.args[1]) | options(D, n.args[2])
    if n.op == 'phi':
        return set().union(*(options(D, x) for x in n.args))
    if n.op == 'mu':
        return options(D, n.args[1])
    if n.op == 'binop':
        out = set()
        for x in options(D, n.args[1]):
            for y in options(D, n.args[2]):
                out.add(D.bin(n, n.args[0], x, y, n.args[2]))
        return out if len(out) < limit else {UNK}
    if n.op == 'call' and callee(n)[0] == 'method':
        m, recv = callee(n)[1], n.args[0].args[0]
        if m == 'map':
            rs = [r for _v, r in D.ip.cb_results.get(n, ())]
            return set().union(*(options(D, r) for r in rs)) if rs else {UNK}
        if m in MULM | DIVM and n.args[1]:
            return {D.bin(n, '*' if m in MULM else '/', x, y)
                    for x in options(D, recv) for y in options(D, n.args[1][0])}
        if m in M_PASS:
            return options(D, recv)
    if n.op in ('attr', 'elem', 'index') and (n.op != 'attr' or n.args[1] in A_PASS):
        return options(D, n.args[0])
    if n.op == 'call' and callee(n)[0] == 'ext' and n.args[1] and callee(n)[1].rsplit('.', 1)[-1] in PASS:
        return options(D, n.args[1][0])
    return {UNK}


def uses(n, pred):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        todo.extend(children(x))
    return False


__all__ = ['ANY', 'ONE', 'UNK', 'Degree', 'L', 'alts', 'name']
