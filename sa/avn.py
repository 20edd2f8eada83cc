"""Algebraic value numbering on the value-flow graph.

Every value is mapped to a number in a prime field: sums, differences, products and
quotients are evaluated in the field, library functions are uninterpreted (hashed) except
for the identities listed here.  Two values with the same number are the same expression
up to algebra.  Missing (NaN) and infinite values are propagated as such, so that a value
can be numbered separately for each pattern of missing inputs.
"""

from __future__ import annotations

import hashlib
from fractions import Fraction

from .flow import callee, cval, show
from .peval import guard_value

P = (1 << 127) - 1
NAN, INF, NINF = 'NAN', 'INF', '-INF'


class Undecided(Exception):
    """The value cannot be numbered."""


def H(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:15], 'big') % P


def num(c):
    if isinstance(c, float):
        if c != c:
            return NAN
        if c in (float('inf'), float('-inf')):
            return INF if c > 0 else NINF
        if 0 < abs(c) < 1e-200:
            return 0
    f = Fraction(c)
    return f.numerator * pow(f.denominator, -1, P) % P


class V:
    """min(max(lo...), hi...) of plain numbers."""

    __slots__ = ('hi', 'lo')

    def __init__(self, lo, hi=frozenset()):
        self.lo = frozenset(lo)
        self.hi = frozenset(hi)

    def key(self):
        if len(self.lo) == 1 and len(self.hi) == 1:
            return ('min', *sorted(map(str, self.lo | self.hi)))
        return ('V', tuple(sorted(map(str, self.lo))), tuple(sorted(map(str, self.hi))))

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Arr:
    """An array whose components are named; layout 'raw', 'rows' (row, component) or 'comps' (component, row)."""

    def __init__(self, name, comps=None, layout='raw', wrap=None):
        self.name, self.comps, self.layout, self.wrap = name, comps, layout, wrap

    def comp(self, i):
        if self.comps is not None:
            if not -len(self.comps) <= i < len(self.comps):
                raise Undecided('index')
            return self.comps[i]
        return H('comp', self.name, i)

    def like(self, layout):
        return Arr(self.name, self.comps, layout, self.wrap)

    def key(self):
        return ('Arr', self.name, self.layout, None if self.comps is None else tuple(map(str, self.comps)))

    def __eq__(self, o):
        return isinstance(o, Arr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Cmp:
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def __eq__(self, o):
        return isinstance(o, Cmp) and (self.op, self.a, self.b) == (o.op, o.a, o.b)

    def __hash__(self):
        return hash((self.op, self.a, self.b))


TRANSPARENT = {
    'atleast_1d', 'array', 'asarray', 'float', 'float64', 'tile', 'repeat', 'broadcast_to', 'copy', 'squeeze', 'ravel',
    'asfarray', 'ascontiguousarray', 'list', 'tuple', 'deepcopy',
}
M_TRANSPARENT = {'copy', 'astype', 'flatten', 'ravel', 'item', 'reshape', 'squeeze', 'tolist', 'to_numpy'}
KNOWN_RV = {'norm', 'uniform', 'weibull_min'}


class AVN:
    """Numbering of the nodes of one interpretation."""

    def __init__(self, ip, env, *, insupport=False, attrs=None, consts=None, stores=True):
        self.ip = ip
        self.env = dict(env)
        self.attrs = attrs or {}
        self.consts = consts or {}
        self.use_stores = stores
        self.insupport = insupport
        self.unknown = []
        self.memo = {}
        self.raw = {}
        self.inv = {}
        self.clamps = set()
        self.signed = set()

    # -- scalars ---------------------------------------------------------
    def flat(self, x):
        """Plain number of a value."""
        if isinstance(x, V):
            if not x.hi and len(x.lo) == 1:
                return next(iter(x.lo))
            return H(*x.key())
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int) or x in (NAN, INF, NINF):
            return x
        if isinstance(x, Arr):
            return H(*x.key())
        raise Undecided(f'not a number: {x!r}')

    def mk(self, lo, hi=()):
        lo = {x for x in lo if x != NINF}
        hi = {x for x in hi if x != INF}
        if NAN in lo or NAN in hi:
            return NAN
        if INF in lo:
            return INF if not hi else V({INF}, hi)
        if not lo:
            return NINF
        if NINF in hi:
            return NINF
        if len(lo) == 1 and not hi:
            return next(iter(lo))
        return V(lo, hi)

    def parts(self, x):
        if isinstance(x, V):
            return set(x.lo), set(x.hi)
        return {self.flat(x)}, set()

    def maxi(self, x, y):
        if self.insupport and (y == 0 or x == 0):
            return x if y == 0 else y
        for p, q in ((x, y), (y, x)):
            if q == 0:
                self.clamps.add(('lo', self.show_key(p)))
        (lx, hx), (ly, hy) = self.parts(x), self.parts(y)
        if NAN in lx or NAN in ly:
            return NAN
        if hx and hy:
            return H('max', *sorted([H(*V(lx, hx).key()), H(*V(ly, hy).key())]))
        return self.mk(lx | ly, hx | hy)

    def mini(self, x, y):
        (lx, hx), (ly, hy) = self.parts(x), self.parts(y)
        if NAN in lx or NAN in ly:
            return NAN
        if (INF in lx and not hx):
            return y
        if (INF in ly and not hy):
            return x
        if len(ly) == 1 and not hy:
            return self.mk(lx, hx | ly)
        if len(lx) == 1 and not hx:
            return self.mk(ly, hy | lx)
        if not hy and 0 in lx and 0 in ly and len(ly) == 2:
            # min(max(x, .., 0), max(b, 0)): x capped at b within the support
            return self.mk(lx, hx | (ly - {0}))
        return self.mk(lx, hx | {H(*V(ly, hy).key())})

    def show_key(self, x):
        return x.key() if isinstance(x, V) else x

    def arith(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            raise Undecided('array arithmetic')
        a, b = self.flat(a), self.flat(b)
        if NAN in (a, b):
            return NAN
        if op == '-':
            b = {INF: NINF, NINF: INF}.get(b, -b % P if isinstance(b, int) else b)
            op = '+'
        sa, sb = a in (INF, NINF), b in (INF, NINF)
        if op == '+':
            if sa and sb:
                return a if a == b else NAN
            if sa or sb:
                return a if sa else b
            return (a + b) % P
        if op == '*':
            if sa or sb:
                if a == 0 or b == 0:
                    return NAN
                if sa and sb:
                    return INF if a == b else NINF
                return a if sa else b
            return a * b % P
        if op == '/':
            if sb:
                return 0 if not sa else NAN
            if sa:
                return a
            if b == 0:
                raise Undecided('division by zero')
            return a * pow(b, -1, P) % P
        if op == '**' and not sa and not sb:
            if b in (1, 2, 3):
                return pow(a, b, P)
            if b == num(0.5):
                return self.fn('sqrt', a)
            return H('pow', a, b)
        raise Undecided(op)

    def fn(self, name, *args):
        h = H(name, *args)
        self.inv[h] = (name, args)
        return h

    def log(self, n):
        """log of the value of node n, products split."""
        if n.op == 'binop' and n.args[0] in ('*', '/') and n not in self.env:
            return self.arith('+' if n.args[0] == '*' else '-', self.log(n.args[1]), self.log(n.args[2]))
        x = self.ev(n)
        return self.logv(x)

    def logv(self, x, guarded=False):
        if isinstance(x, V):
            ok = 0 in x.lo
            lo = {self.logv(y, ok) for y in x.lo}
            hi = {self.logv(y, ok) for y in x.hi}
            return self.mk(lo, hi)
        x = self.flat(x)
        if x == 0:
            return NINF
        if x == num(1):
            return 0
        if x in (INF, NAN):
            return x
        if x == NINF:
            return NAN
        if x in self.inv and self.inv[x][0] == 'exp':
            return self.inv[x][1][0]
        if x in self.signed and not guarded:
            return self.fn('log of a possibly negative value', x)
        return self.fn('log', x)

    def expv(self, x):
        if isinstance(x, V):
            return self.mk({self.expv(y) for y in x.lo}, {self.expv(y) for y in x.hi})
        x = self.flat(x)
        if x == NINF:
            return 0
        if x == 0:
            return num(1)
        if x in (INF, NAN):
            return x
        if x in self.inv and self.inv[x][0] == 'log':
            return self.inv[x][1][0]
        return self.fn('exp', x)

    def clip01(self, z):
        if isinstance(z, int) and z in (0, 1):
            return z
        z = self.mini(self.maxi_raw(z, 0), num(1))
        return z

    def maxi_raw(self, x, y):
        (lx, hx), (ly, hy) = self.parts(x), self.parts(y)
        return self.mk(lx | ly, hx | hy)

    def rv(self, dist, what, args, kw):
        for i, x in enumerate(args):
            if isinstance(x, Arr) and x.comps is not None:
                return Arr(x.name, [self.rv(dist, what, [*args[:i], y, *args[i + 1:]], kw) for y in x.comps], x.layout)
        names = {'norm': [], 'uniform': [], 'weibull_min': ['c']}[dist]
        pos = ['x', *names, 'loc', 'scale']
        d = dict(zip(pos, args))
        for k, v in kw:
            d[k if k not in ('q', 'x') else 'x'] = v
        x = d.get('x')
        loc, scale = self.flat(d.get('loc', 0)), self.flat(d.get('scale', num(1)))
        sh = tuple(self.flat(d[k]) for k in names)
        if what == 'ppf':
            if x == NAN:
                return NAN
            x = self.flat(x)
            if dist == 'uniform':
                return self.arith('+', loc, self.arith('*', scale, x))
            if x == 0:
                q = {'norm': NINF, 'weibull_min': 0}[dist]
            elif x == num(1):
                q = INF
            elif x in self.inv and self.inv[x][0] == dist + '.cdf' and self.inv[x][1][:-1] == sh:
                q = self.inv[x][1][-1]
            else:
                q = self.fn(dist + '.ppf', *sh, x)
            return self.arith('+', loc, self.arith('*', scale, q))
        if what == 'pdf':
            z = self.arith('/', self.arith('-', x, loc), scale)
            return self.arith('/', self.fn(dist + '.pdf', *sh, z), scale)
        if what == 'cdf':
            if x in (INF, NINF):
                return num(1) if x == INF else 0
            if dist == 'uniform':
                top = self.arith('+', loc, scale)
                lo, hi = self.parts(x)
                z = self.arith('/', self.arith('-', x, loc), scale)
                if self.insupport or loc in lo | hi or top in lo | hi:
                    return z
                return self.clip01(z)
            if dist == 'weibull_min':
                if isinstance(x, V) and loc == 0 and len(x.lo) > 1:
                    x = self.mk(x.lo - {0}, x.hi)
                if loc == 0 and x == 0:
                    return 0
            if isinstance(x, V):
                z = V({self.arith('/', self.arith('-', y, loc), scale) for y in x.lo},
                      {self.arith('/', self.arith('-', y, loc), scale) for y in x.hi})
                z = self.mk(z.lo, z.hi)
            else:
                z = self.arith('/', self.arith('-', x, loc), scale)
            if z in (INF, NINF):
                return num(1) if z == INF else 0
            if isinstance(z, V):
                return self.mk({self._cdf(dist, sh, y) for y in z.lo}, {self._cdf(dist, sh, y) for y in z.hi})
            return self._cdf(dist, sh, z)
        raise Undecided(what)

    def _cdf(self, dist, sh, z):
        z = self.flat(z)
        if z in (INF, NINF):
            return num(1) if z == INF else 0
        if z == 0 and dist == 'weibull_min':
            return 0
        if z in self.inv and self.inv[z][0] == dist + '.ppf' and self.inv[z][1][:-1] == sh:
            return self.inv[z][1][-1]
        return self.fn(dist + '.cdf', *sh, z)

    # -- evaluation ------------------------------------------------------
    def ev(self, n):
        if n in self.env:
            return self.env[n]
        if n in self.memo:
            r = self.memo[n]
            if r is Ellipsis:
                raise Undecided('cycle')
            if isinstance(r, Undecided):
                raise r
            return r
        self.memo[n] = Ellipsis
        try:
            r = self._stored(n)
        except Undecided as exc:
            self.memo[n] = exc
            if len(self.unknown) < 20:
                self.unknown.append(f'{exc} in {show(n, 3)}')
            raise
        except (TypeError, ValueError, KeyError, IndexError) as exc:
            e = Undecided(f'{type(exc).__name__}')
            self.memo[n] = e
            self.unknown.append(show(n, 3))
            raise e from exc
        self.memo[n] = r
        return r

    def _stored(self, n):
        r = self._ev(n)
        stores = self.ip.stores.get(n) if self.use_stores else None
        if not stores:
            return r
        for k, v, _g in stores:
            self.memo[n] = r
            m = self.ev(k)
            x = self.ev(v)
            for kk in self._between(k, n):
                self.memo.pop(kk, None)
            if isinstance(r, Arr) and isinstance(m, int) and not isinstance(m, bool):
                raise Undecided('component store')
            r = self.where(m, x, r)
        return r

    def _between(self, k, n):
        """Nodes of k that depend on n (their value changes with the store)."""
        out, todo, seen = [], [k], set()
        while todo:
            x = todo.pop()
            if x in seen or not hasattr(x, 'op'):
                continue
            seen.add(x)
            if x is not n:
                out.append(x)
                for a in x.args:
                    if isinstance(a, tuple):
                        todo.extend(y for y in a if hasattr(y, 'op'))
                    elif hasattr(a, 'op'):
                        todo.append(a)
        return out

    def where(self, c, x, y):
        if isinstance(c, bool):
            return x if c else y
        if isinstance(c, Arr):
            if isinstance(y, Arr):
                return Arr(y.name, [self.where(c.comp(i), x if not isinstance(x, Arr) else x.comp(i), y.comp(i)) for i in range(2)],
                           y.layout)
            raise Undecided('mask')
        if x == y:
            return x
        if isinstance(c, Cmp):
            a, b, op = c.a, c.b, c.op
            if op == '==' and {x, y} == {a, b}:
                return y
            if op == '!=' and {x, y} == {a, b}:
                return x
            if op in ('<', '<='):
                if x == b and y == a:
                    return self.maxi(a, b)
                if x == a and y == b:
                    return self.mini(a, b)
            if op in ('>', '>='):
                if x == b and y == a:
                    return self.mini(a, b)
                if x == a and y == b:
                    return self.maxi(a, b)
        raise Undecided('choice')

    def truth(self, n):
        if self.consts:
            g = guard_value(n, self.consts)
            if g is not None:
                return g
        r = self.ev(n)
        if isinstance(r, bool):
            return r
        if r is None:
            return False
        raise Undecided('condition')

    def cond(self, n):
        """True / False / None."""
        try:
            return self.truth(n)
        except Undecided:
            return None

    def _ev(self, n):
        o, a = n.op, n.args
        if o == 'const':
            c = cval(n)
            if isinstance(c, bool) or c is None:
                return c
            if isinstance(c, (int, float)):
                return num(c)
            raise Undecided('constant')
        if o == 'ext':
            b = a[0].rsplit('.', 1)[-1]
            if b in ('nan', 'NaN'):
                return NAN
            if b in ('inf', 'infty'):
                return INF
            if b == 'pi':
                return H('pi')
            raise Undecided(a[0])
        if o == 'glob':
            return self.glob(n)
        if o == 'param':
            raise Undecided(f'parameter {a[1]}')
        if o in ('list', 'tuple'):
            if n in self.ip.appends or any(x.op == 'star' for x in a):
                raise Undecided('list')
            return Arr(None, [self.ev(x) for x in a])
        if o == 'attr':
            if a[1] in self.attrs and a[0].op == 'param':
                return self.attrs[a[1]]
            if a[1] == 'T':
                x = self.ev(a[0])
                if isinstance(x, Arr):
                    return x.like({'rows': 'comps', 'comps': 'rows', 'raw': 'raw'}[x.layout])
                return x
            if a[1] == 'ndim':
                x = self.ev(a[0])
                if isinstance(x, Arr) and x.layout in ('rows', 'comps'):
                    return num(2)
            if a[1] in ('values', 'real'):
                return self.ev(a[0])
            raise Undecided(f'attribute {a[1]}')
        if o == 'unop':
            x = self.ev(a[1])
            if a[0] in ('~', 'not'):
                return self.neg(x)
            if a[0] == '-':
                return self.arith('-', 0, x)
            return x
        if o == 'not':
            return self.neg(self.ev(a[0]))
        if o in ('and', 'or'):
            vals = []
            for x in a:
                t = self.cond(x)
                if t is (o == 'or'):
                    return t
                vals.append(t)
            if None in vals:
                raise Undecided('condition')
            return o == 'and'
        if o == 'binop':
            if a[0] in ('&', '|'):
                x, y = self.ev(a[1]), self.ev(a[2])
                if isinstance(x, bool) and isinstance(y, bool):
                    return (x and y) if a[0] == '&' else (x or y)
                raise Undecided('mask')
            if a[0] == '+':
                x = None
                for p, q in ((a[1], a[2]), (a[2], a[1])):
                    if p.op == 'list' and all(z.op in ('const', 'ext', 'unop') for z in p.args):
                        x = q
                        break
                if x is not None:
                    return self.ev(x)
            return self.arith(a[0], self.ev(a[1]), self.ev(a[2]))
        if o == 'cmp':
            return self.compare(a[0], a[1], a[2])
        if o == 'ite':
            t = self.cond(a[0])
            if t is not None:
                return self.ev(a[1] if t else a[2])
            x, y = self.ev(a[1]), self.ev(a[2])
            if x == y:
                return x
            if isinstance(x, Arr) and isinstance(y, Arr) and x.comps == y.comps and (x.comps is not None or x.name and x.name == y.name):
                return x if x.layout != 'raw' else y
            try:
                c = self.ev(a[0])
            except Undecided:
                c = None
            return self.where(c, x, y)
        if o == 'phi':
            xs = [self.ev(x) for x in a]
            if all(x == xs[0] for x in xs):
                return xs[0]
            raise Undecided('merge')
        if o == 'index':
            return self.index(n)
        if o == 'comp':
            # a list built from one component of every row
            body = a[1]
            if a[0] in ('list', 'gen') and body.op == 'index' and body.args[0].op == 'elem' and body.args[1].op == 'const':
                src = self.ev(body.args[0].args[0])
                if isinstance(src, Arr):
                    return src.comp(cval(body.args[1]))
            raise Undecided('comprehension')
        if o == 'call':
            return self.call(n)
        raise Undecided(o)

    def neg(self, x):
        if isinstance(x, bool):
            return not x
        if x is None:
            return True
        if isinstance(x, Arr) and x.comps is not None:
            return Arr(x.name, [self.neg(y) for y in x.comps], x.layout)
        if isinstance(x, Cmp):
            return Cmp({'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[x.op], x.a, x.b)
        raise Undecided('negation')

    def glob(self, n):
        m, expr = self.ip.glob_expr(n)
        import ast
        if isinstance(expr, ast.Call) and ast.unparse(expr.func).endswith('nextafter'):
            return 0
        if isinstance(expr, ast.Constant) and isinstance(expr.value, (int, float)):
            return num(expr.value)
        raise Undecided('global')

    def compare(self, op, x, y):
        if op in ('is', 'is not'):
            for p, q in ((x, y), (y, x)):
                if q.op == 'const' and cval(q) is None:
                    v = self.ev(p)
                    return (v is None) == (op == 'is')
            raise Undecided('identity')
        if op in ('in', 'not in'):
            raise Undecided(op)
        u, v = self.ev(x), self.ev(y)
        if isinstance(u, Arr) or isinstance(v, Arr):
            raise Undecided('array comparison')
        if u == NAN or v == NAN:
            return op == '!='
        return Cmp(op, u, v)

    def index(self, n):
        b, k = n.args
        x = self.ev(b)
        if k.op == 'slice':
            return x
        if not isinstance(x, Arr):
            raise Undecided('index')
        if k.op == 'tuple' and len(k.args) == 2:
            p, q = k.args
            if x.layout == 'rows' and q.op == 'const':
                return x.comp(cval(q))
            if p.op == 'slice' and q.op == 'const':
                if x.layout == 'comps':
                    raise Undecided('index')
                return x.comp(cval(q))
            if q.op == 'slice' and p.op == 'const' and x.layout == 'comps':
                return x.comp(cval(p))
            raise Undecided('index')
        if k.op == 'const' and isinstance(cval(k), int):
            if x.layout == 'rows':
                return x.like('raw')
            return x.comp(cval(k))
        if x.layout == 'rows':
            return x.like('raw')
        raise Undecided('index')

    def isnan(self, x):
        if isinstance(x, Arr):
            if x.comps is None:
                return Arr(x.name, [False, False], x.layout)
            return Arr(x.name, [self.isnan(y) for y in x.comps], x.layout)
        if x is None:
            raise Undecided('isnan(None)')
        return x == NAN

    def reduce(self, x, how):
        if isinstance(x, bool):
            return x
        if isinstance(x, Arr) and x.comps is not None:
            vals = [self.reduce(y, how) for y in x.comps]
            return how(vals)
        if isinstance(x, Cmp):
            return x
        raise Undecided('reduction')

    def call(self, n):
        kind, nm = callee(n)
        pos, kw = n.args[1], n.args[2]
        if kind == 'method':
            recv = n.args[0].args[0]
            if nm in M_TRANSPARENT:
                return self.ev(recv)
            if nm in ('any', 'all') and not pos:
                return self.reduce(self.ev(recv), any if nm == 'any' else all)
            if nm == 'clip':
                x = self.ev(recv)
                d = {**dict(zip(('lo', 'hi'), map(self.ev, pos))), **{('lo' if 'lo' in k or k == 'min' or k == 'a_min' else 'hi'): self.ev(v) for k, v in kw}}
                return self.clip(x, d.get('lo'), d.get('hi'))
            if recv.op == 'ext' and recv.args[0].startswith('scipy.stats.'):
                kind, nm = 'ext', recv.args[0] + '.' + nm
        if kind != 'ext':
            raise Undecided(f'call {nm}')
        b = nm.rsplit('.', 1)[-1]
        parts = nm.split('.')
        if nm.startswith('scipy.stats.') and len(parts) == 4:
            if parts[2] not in KNOWN_RV:
                raise Undecided(nm)
            return self.rv(parts[2], b, [self.ev(x) for x in pos], [(k, self.ev(v)) for k, v in kw])
        if b == 'log':
            return self.log(pos[0])
        if b == 'isnan':
            return self.isnan(self.ev(pos[0]))
        if b in ('any', 'all'):
            return self.reduce(self.ev(pos[0]), any if b == 'any' else all)
        if b == 'nextafter':
            return self.ev(pos[0])
        if b == 'len':
            raise Undecided('len')
        if b in TRANSPARENT:
            return self.ev(pos[0])
        args = [self.ev(x) for x in pos]
        k = {x: self.ev(v) for x, v in kw if x not in ('copy', 'dtype')}
        if b == 'atleast_2d':
            x = args[0]
            return x.like('rows') if isinstance(x, Arr) else x
        if b == 'exp':
            return self.expv(args[0])
        if b == 'interp':
            return self.interp(*args[:3])
        if b == 'nan_to_num':
            x = args[0]
            fill = k.get('nan', args[2] if len(args) > 2 else 0)
            if isinstance(x, Arr):
                if x.comps is None:
                    return x
                return Arr(x.name, [fill if y == NAN else y for y in x.comps], x.layout)
            return fill if x == NAN else x
        if b == 'where' and len(args) == 3:
            return self.where(*args)
        if b in ('maximum', 'minimum', 'fmax', 'fmin', 'max', 'min') and len(args) == 2:
            x, y = args
            if b[0] == 'f' or parts[0] == 'builtins':
                if x == NAN:
                    return y
                if y == NAN:
                    return x
            return self.maxi(x, y) if 'max' in b else self.mini(x, y)
        if b in ('max', 'min', 'amax', 'amin') and len(args) == 1 and isinstance(args[0], Arr) and args[0].comps:
            out = args[0].comps[0]
            for x in args[0].comps[1:]:
                out = self.maxi(out, x) if 'max' in b else self.mini(out, x)
            return out
        if b in ('nanmax', 'nanmin') and isinstance(args[0], Arr) and args[0].comps is not None:
            r = [x for x in args[0].comps if x != NAN]
            out = r[0]
            for x in r[1:]:
                out = self.maxi(out, x) if b == 'nanmax' else self.mini(out, x)
            return out
        if b == 'clip':
            return self.clip(args[0], args[1] if len(args) > 1 else k.get('a_min'), args[2] if len(args) > 2 else k.get('a_max'))
        if b in ('abs', 'absolute', 'fabs'):
            x = self.flat(args[0])
            return H('abs', min(x, -x % P)) if isinstance(x, int) else x
        if b == 'sqrt':
            return self.fn('sqrt', self.flat(args[0]))
        if b in ('multiply', 'add', 'subtract', 'divide', 'true_divide'):
            return self.arith({'m': '*', 'a': '+', 's': '-', 'd': '/', 't': '/'}[b[0]], *args[:2])
        raise Undecided(f'call {nm}')

    def clip(self, x, lo, hi):
        if lo is not None and lo != NAN:
            x = self.maxi(x, lo)
        if hi is not None and hi != NAN:
            x = self.mini(x, hi)
        return x

    def interp(self, x, xs, ys):
        x, xs, ys = self.flat(x), self.flat(xs), self.flat(ys)
        if x in self.inv and self.inv[x][0] == 'interp' and self.inv[x][1][1:] == (ys, xs):
            return self.inv[x][1][0]
        return self.fn('interp', x, xs, ys)
