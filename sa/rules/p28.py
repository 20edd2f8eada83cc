"""P28: residual drifts are estimated from the peak drifts, and added demands leave the others as they are."""

from __future__ import annotations

from fractions import Fraction as Q

from .. import asworld as W
from .. import vq
from ..ceval import NO, Raised, Undecided
from ..lframe import Arr, Const, FTrace, Frame, Ix, Obj, Ser, isnan
from ..trace import Stopped

EXPLANATION = (
    'The estimation of residual drifts is followed for peak drifts p and a yield drift y that are known only by the range their ratio lies in. '
    'Values are linear in p and y, with random factors; comparisons that a range does not decide split it. What is estimated in every range is '
    'compared with the method. The demands that are stored with the estimated or added ones are followed on small tables.'
)
CLS = 'pelicun.model.demand_model.DemandModel.'
AT = CLS + 'estimate_RID'
RULES = {
    'value': 'residual drifts follow the three ranges of the method, have one random factor each if they are not zero, and do not exceed the peak drift',
    'place': 'every residual drift has the realization, location and direction of its peak drift',
    'method': 'other methods are rejected',
    'kept': 'estimated and added demands are stored with all other demands and their units',
    'rejected': 'demands are not added without a sample, or when their number does not match',
}


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for f in (estimated, adjusted, expanded):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


# -- values -----------------------------------------------------------------------
class Split(Exception):
    """A comparison that has different results in a range of the ratio p / y."""

    def __init__(self, at):
        super().__init__(str(at))
        self.at = at


def exact(x):
    if isinstance(x, bool) or not isinstance(x, (int, float, Q)) or isnan(x):
        raise Undecided(f'number {x}')
    return Q(repr(x)) if isinstance(x, float) else Q(x)


class Cell:
    """A factor, linear in the peak drift and the yield drift, times the exponential of random terms."""

    def __init__(self, name, reach, p=0, y=0, c=0, rand=()):
        if reach is not None and reach[0] == reach[1] and c == 0 and p * reach[0] + y == 0:
            p = y = 0
        self.name, self.reach, self.p, self.y, self.c = name, reach, p, y, c
        self.rand = frozenset((e, k) for e, k in rand if k != 0) if (p, y, c) != (0, 0, 0) else frozenset()

    def key(self):
        return (self.name if self.p else None, self.p, self.y, self.c, self.rand)

    def __repr__(self):
        r = ''.join(f' exp({float(k):g} {e})' for e, k in sorted(self.rand, key=repr))
        return f'({float(self.p):g} p {float(self.y):+g} y {float(self.c):+g}){r}'

    def like(self, o):
        if isinstance(o, Cell):
            if self.name and o.name and self.name != o.name and self.p and o.p:
                raise Undecided('different drifts')
            return o
        return Cell(self.name, self.reach, c=exact(o))

    def add(self, o, k):
        if isnan(o):
            return o
        o = self.like(o)
        if o.key() == (None, 0, 0, 0, frozenset()):
            return self
        if self.rand or o.rand:
            if self.key() == o.key() and k == -1:
                return Cell(self.name or o.name, self.reach or o.reach)
            raise Undecided('sum of random values')
        return Cell(self.name or o.name, self.reach or o.reach, self.p + k * o.p, self.y + k * o.y, self.c + k * o.c)

    def __add__(self, o):
        return self.add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self.add(o, -1)

    def __rsub__(self, o):
        return o if isnan(o) else (-self).add(o, 1)

    def __neg__(self):
        return Cell(self.name, self.reach, -self.p, -self.y, -self.c, self.rand)

    def __mul__(self, o):
        if isnan(o):
            return o
        if isinstance(o, Rand):
            return Odd(f'{self!r} * ({o!r})')
        o = self.like(o)
        a, b = (self, o) if (o.p, o.y) == (0, 0) else (o, self)
        if (b.p, b.y) != (0, 0):
            raise Undecided('product of drifts')
        r = dict(a.rand)
        for e, k in b.rand:
            r[e] = r.get(e, 0) + k
        return Cell(self.name or o.name, self.reach or o.reach, a.p * b.c, a.y * b.c, a.c * b.c, r.items())

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isnan(o):
            return o
        if isinstance(o, Cell) and (o.p, o.y) != (0, 0):
            raise Undecided('ratio of drifts')
        k = o.c if isinstance(o, Cell) else exact(o)
        if isinstance(o, Cell) and o.rand:
            raise Undecided('ratio of random values')
        return self * (1 / k)

    def sign(self):
        """The sign of the value in the range of the ratio."""
        reach = self.reach
        if self.rand:
            return Cell(self.name, reach, self.p, self.y, self.c).sign()
        if self.c:
            if self.p or self.y:
                raise Undecided('drift compared with a number')
            return 1 if self.c > 0 else -1
        if not self.p:
            return (self.y > 0) - (self.y < 0)
        if reach is None:
            raise Undecided('comparison')
        t = -self.y / self.p
        lo, hi = reach
        if lo == hi:
            v = self.p * lo + self.y
            return (v > 0) - (v < 0)
        if t > lo and (hi is None or t < hi):
            raise Split(t)
        m = lo + 1 if hi is None else (lo + hi) / 2
        v = self.p * m + self.y
        return (v > 0) - (v < 0)

    def compare(self, o):
        if isnan(o):
            return None
        if isinstance(o, (Rand, Least)):
            raise Undecided('comparison')
        o = self.like(o)
        if self.rand or o.rand:
            for a, s in ((self, 1), (o, -1)):
                b = o if a is self else self
                if not b.rand and (b.p, b.y, b.c) == (0, 0, 0):
                    return s * a.sign()
            if self.key() == o.key():
                return 0
            raise Undecided('comparison of random values')
        return (self - o).sign()

    def __lt__(self, o):
        s = self.compare(o)
        return s is not None and s < 0

    def __le__(self, o):
        s = self.compare(o)
        return s is not None and s <= 0

    def __gt__(self, o):
        s = self.compare(o)
        return s is not None and s > 0

    def __ge__(self, o):
        s = self.compare(o)
        return s is not None and s >= 0

    def __eq__(self, o):
        return isinstance(o, (Cell, int, float)) and self.compare(o) == 0

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __float__(self):
        raise Undecided('number of a drift')


class Rand:
    """A linear combination of random terms, and the logarithm of a value."""

    def __init__(self, terms, of=None):
        self.terms, self.of = {e: k for e, k in terms.items() if k}, of

    def __repr__(self):
        return ' + '.join([*([f'log {self.of!r}'] if self.of is not None else []), *(f'{float(k):g}' + ('' if e is None else f' {e}') for e, k in self.terms.items())])

    def __add__(self, o):
        if isnan(o):
            return o
        if not isinstance(o, Rand):
            if exact(o) == 0:
                return self
            if self.of is None:
                return Rand({**self.terms, None: self.terms.get(None, 0) + exact(o)})
            return self + Rand({None: exact(o)})
        if self.of is not None and o.of is not None:
            raise Undecided('sum of logarithms')
        return Rand({e: self.terms.get(e, 0) + o.terms.get(e, 0) for e in {*self.terms, *o.terms}}, self.of if self.of is not None else o.of)

    __radd__ = __add__

    def __mul__(self, o):
        if isnan(o):
            return o
        if isinstance(o, Rand):
            return Odd(f'({self!r}) * ({o!r})')
        if isinstance(o, Cell):
            return o * self
        if self.of is not None:
            raise Undecided('random product')
        return Rand({e: k * exact(o) for e, k in self.terms.items()})

    __rmul__ = __mul__

    def __sub__(self, o):
        return self + o * -1 if isinstance(o, Rand) and o.of is None else self + (-o)

    def __neg__(self):
        return self * -1

    def __truediv__(self, o):
        return self * (1 / exact(o))


class Least:
    """The smaller one (or the larger one) of a random value and a drift."""

    def __init__(self, a, b, name='min'):
        self.of, self.name = frozenset((a, b)), name

    def __repr__(self):
        return f'{self.name}{tuple(sorted(self.of, key=repr))}'


class Odd:
    """A value with a random term that is neither a factor nor an exponent."""

    def __init__(self, text):
        self.text, self.name = text, None

    def __repr__(self):
        return self.text

    def key(self):
        return (self.text,)


def smaller(a, b):
    if isnan(a) or isnan(b):
        return a if isnan(a) else b
    if isinstance(a, Odd) or isinstance(b, Odd):
        return Least(a, b)
    for x in (a, b):
        if isinstance(x, Least):
            y = b if x is a else a
            if isinstance(y, Cell) and y in x.of and x.name == 'min':
                return x
            raise Undecided('minimum')
    try:
        return b if b < a else a
    except Undecided:
        if isinstance(a, Cell) and isinstance(b, Cell):
            return Least(a, b)
        raise


def larger(a, b):
    if isnan(a) or isnan(b):
        return a if isnan(a) else b
    try:
        return b if b > a else a
    except Undecided:
        if isinstance(a, Cell) and isinstance(b, Cell):
            return Least(a, b, 'max')
        raise


def log(x):
    if isnan(x):
        return x
    if not isinstance(x, Cell):
        raise Undecided('logarithm')
    if x.sign() <= 0:
        return float('nan') if x.sign() < 0 else Minus()
    return Rand(dict(x.rand), Cell(x.name, x.reach, x.p, x.y, x.c))


class Minus:
    """Minus infinity."""

    def __add__(self, o):
        return o if isnan(o) else self

    __radd__ = __sub__ = __add__


def exp(x):
    if isnan(x):
        return x
    if isinstance(x, Minus):
        return 0.0
    if isinstance(x, Odd):
        return Odd(f'exp({x!r})')
    if not isinstance(x, Rand):
        if exact(x) == 0:
            return 1.0
        raise Undecided('exponential')
    of = x.of if x.of is not None else Cell(None, None, c=Q(1))
    return Cell(of.name, of.reach, of.p, of.y, of.c, x.terms.items())


def each(f, x):
    return x.map(f) if isinstance(x, Obj) else f(x)


def both(f, a, b):
    if isinstance(a, Obj) and not (isinstance(a, Arr) and isinstance(b, Frame)):
        return a.zip(b, f)
    return b.zip(a, f, True) if isinstance(b, Obj) else f(a, b)


class World:
    """The surroundings of the estimation."""

    must = ('normal', 'standard_normal')

    def __init__(self, pid, y, method):
        self.pid, self.y, self.method, self.draws, self.messages = pid, y, method, {}, []
        self.nodes = {}

    def draw(self, loc, scale, size):
        shape = tuple(size) if isinstance(size, (tuple, list)) else (size,)
        if any(not isinstance(k, int) for k in shape):
            raise Undecided('size of the random numbers')
        out = []
        total = 1
        for k in shape:
            total *= k
        for _i in range(total):
            e = len(self.draws)
            self.draws[e] = (exact(loc), exact(scale))
            out.append(Rand({e: Q(1)}))
        return Arr(shape, out)

    def __call__(self, tr, n):  # noqa: C901
        if n.op == 'param':
            nm = n.args[-1]
            v = {'demands': self.pid, 'params': {'yield_drift': self.y}, 'method': self.method}.get(nm, NO)
            if v is NO and nm == 'self':
                return Part(self)
            return v
        if n.op == 'call':
            c = vq.callee(n)
            full = str(c[1]) if c else ''
            if full in FUNS:
                a, kw = tr.args(n)
                if set(kw) - {'dtype'}:
                    raise Undecided(full)
                return FUNS[full](*a)
            if full == 'numpy.random.normal' or full.startswith('numpy.random.'):
                raise Undecided('random numbers')
        return NO


class Part(Obj):
    def __init__(self, world=None):
        self.world = world

    def __getattr__(self, name):
        if name in ('a_rng', 'a__rng') and self.world is not None:
            return Rng(self.world)
        if name.startswith('a_'):
            return Part(self.world)
        if name in ('m_msg', 'm_add_warning', 'm_div'):
            return lambda *_a, **_kw: None
        raise AttributeError(name)


class Rng(Obj):
    def __init__(self, world):
        self.world, self.made = world, {}

    def m_normal(self, loc=0.0, scale=1.0, size=None):
        return self.world.draw(loc, scale, () if size is None else size)

    def m_standard_normal(self, size=None):
        return self.world.draw(0, 1, () if size is None else size)


def where(c, a=None, b=None):
    if a is None:
        raise Undecided('where')
    def fit(v):
        return v.m_to_numpy() if isinstance(v, (Frame, Ser)) else v
    c, a, b = fit(c), fit(a), fit(b)
    if not isinstance(c, Arr):
        raise Undecided('where')
    x = c.zip(a, lambda z, v: (z, v))
    return x.zip(b, lambda z, v: z[1] if z[0] else v)


def select(cs, vs, default=0):
    out = default
    for c, v in reversed(list(zip(cs, vs))):
        out = where(c, v, out)
    return out


FUNS = {
    'numpy.log': lambda x: each(log, x), 'numpy.exp': lambda x: each(exp, x), 'numpy.minimum': lambda a, b: both(smaller, a, b), 'numpy.fmin': lambda a, b: both(smaller, a, b),
    'numpy.maximum': lambda a, b: both(larger, a, b), 'numpy.where': where, 'numpy.select': select,
    'numpy.multiply': lambda a, b: both(lambda x, y: x * y, a, b), 'numpy.add': lambda a, b: both(lambda x, y: x + y, a, b), 'numpy.subtract': lambda a, b: both(lambda x, y: x - y, a, b),
}


# -- estimate ---------------------------------------------------------------------
def ranges(cuts):
    """The ranges between the given ratios, and the ratios themselves."""
    cuts = sorted({Q(0), *cuts})
    out = []
    for i, c in enumerate(cuts):
        if c > 0:
            out.append((c, c))
        out.append((c, cuts[i + 1] if i + 1 < len(cuts) else None))
    return out


def peaks(cuts):
    """A table with a peak drift in every range, in both columns and in different orders."""
    rs = ranges(cuts)
    rows = []
    for i in range(len(rs)):
        a, b = rs[i], rs[(i * 2 + 1) % len(rs)] if len(rs) % 2 else rs[-1 - i]
        rows.append([Cell(f'p{i}a', a, p=Q(1)), Cell(f'p{i}b', b, p=Q(1))])
    return Frame(Ix(list(range(1, len(rows) + 1))), Ix([('2', '1'), ('1', '2')], ['loc', 'dir']), rows)


def method(cell):
    """The residual drift without randomness: coefficients of p and y."""
    lo, hi = cell.reach
    mid = lo if lo == hi else lo + 1 if hi is None else (lo + hi) / 2
    if mid < 1 or lo == hi == 1:
        return Q(0), Q(0)
    if mid < 4:
        return Q('0.3'), Q('-0.3')
    return Q(1), Q(-3)


def trace(ctx, cuts, name):
    pid = peaks(cuts)
    w = World(pid.m_copy(), Cell(None, None, y=Q(1)), name)
    ip = ctx.interp(AT, key='p28')
    return FTrace(ip, w).run(), w, pid


def say(reach):
    lo, hi = reach
    return f'a ratio of {float(lo):g}' if lo == hi else f'ratios above {float(lo):g}' if hi is None else f'ratios between {float(lo):g} and {float(hi):g}'


def estimated(ctx, res, skipped):
    for name in ('FEMA P58', 'FEMA P-58'):
        cuts = {Q(1), Q(4)}
        for _k in range(8):
            try:
                tr, w, pid = trace(ctx, cuts, name)
                got = None if tr.raised else tr.ev(tr.result)
                break
            except Split as s:
                cuts.add(s.at)
        else:
            raise Undecided('too many ranges')
        if tr.raised is not None:
            res.check('method', False, name, AT, f'the method {name} is rejected ({tr.raised.name})')
            continue
        if not isinstance(got, Frame):
            raise Undecided('result')
        want = [('RID', *c) for c in pid.columns.vals]
        ok = sorted(map(str, got.columns.vals)) == sorted(map(str, want)) and got.index.vals == pid.index.vals
        res.check('place', ok, name, AT, f'{name}: the residual drifts have rows {got.index.vals[:3]} and columns {got.columns.vals}, not those of the peak drifts with RID before them')
        if not ok:
            continue
        used = {}
        for i, r in enumerate(pid.rows):
            for c, p in zip(pid.columns.vals, r):
                v = got.rows[i][got.columns.vals.index(('RID', *c))]
                cell(res, name, p, v, w, used)
    for name in ('HAZUS', 'FEMA P-57', ''):
        tr, _w, _pid = trace(ctx, {Q(1), Q(4)}, name)
        res.check('method', tr.raised is not None and tr.raised.name == 'ValueError', f'method {name}', AT, f'the unknown method {name!r} is not rejected')


def cell(res, name, p, v, w, used):
    want = method(p)
    what = f'{name}, {say(p.reach)} of peak to yield drift'
    if isnan(v):
        res.check('value', False, what, AT, f'{what}: no residual drift')
        return
    if isinstance(v, (int, float)):
        v = Cell(None, p.reach, c=exact(v))
    if want == (0, 0):
        res.check('value', isinstance(v, Cell) and not v.c and v.sign() == 0, what, AT, f'{what}: the residual drift is {v!r}, not zero')
        return
    if isinstance(v, (Cell, Odd)) or isinstance(v, Least) and v.name != 'min':
        res.check('value', False, what, AT, f'{what}: the residual drift is {v!r}, which is not limited to the peak drift')
        return
    if not isinstance(v, Least):
        raise Undecided('residual drift')
    rest = [x for x in v.of if x.key() != p.key()]
    ok = len(rest) == 1 and rest[0].name in (None, p.name)
    res.check('place', len(rest) == 1 and rest[0].name in (None, p.name), what, AT, f'{what}: the residual drift is {v!r}, which combines different peak drifts')
    if not ok:
        return
    r = rest[0]
    if isinstance(r, Odd):
        res.check('value', False, what, AT, f'{what}: the residual drift is {v!r}, without a lognormal factor')
        return
    ok = (r.p, r.y, r.c) == (*want, 0)
    res.check('value', ok, what, AT, f'{what}: the residual drift is {v!r}; the method has {float(want[0]):g} p {float(want[1]):+g} y')
    terms = list(r.rand)
    one = len(terms) == 1 and terms[0][0] is not None and w.draws[terms[0][0]][0] == 0 and abs(terms[0][1]) * w.draws[terms[0][0]][1] == Q('0.2')
    res.check('value', one, what, AT, f'{what}: the residual drift is {v!r}, without one random factor of dispersion 0.2')
    if one:
        e = (name, terms[0][0])
        res.check('value', e not in used, what, AT, f'{what}: the random factor of another residual drift is used')
        used[e] = True


# -- storing ----------------------------------------------------------------------
COLS = [('PFA', '0', '1'), ('PID', '2', '1'), ('PID', '1', '2'), ('SA_1.0', '0', '1')]
UNITS = ['mps2', 'rad', 'rad', 'g']


def sample():
    ix = Ix(list(COLS), ['type', 'loc', 'dir'])
    return Frame(Ix([0, 1]), ix, [[11.0, 12.0, 13.0, 14.0], [21.0, 22.0, 23.0, 24.0]]), Ser(ix, list(UNITS))


class Model(Obj):
    """A demand model with a sample."""

    def __init__(self, has, params):
        self.has, self.params, self.stored, self.asked = has, params, [], []
        self.messages = []

    must = ('load_sample', 'estimate_RID', 'save_sample')

    @property
    def a_sample(self):
        return sample()[0] if self.has else None

    @property
    def a_log(self):
        return Part()

    @property
    def a__asmnt(self):
        return Part()

    def m_save_sample(self, filepath=None, save_units=False):
        if filepath is not None:
            raise Undecided('file')
        return sample() if save_units else sample()[0]

    def m_estimate_RID(self, demands, params, method='FEMA P58'):
        self.asked.append((W.own(demands), params, method))
        return Frame(Ix([0, 1]), Ix([('RID', *c) for c in demands.columns.vals], [None, *demands.columns.names]), [[x / 100 for x in r] for r in demands.rows])

    def m_load_sample(self, filepath):
        self.stored.append(W.own(filepath))

    def s_sample(self, v):
        raise Undecided('sample')

    def __call__(self, tr, n):
        if n.op == 'param':
            return self.params.get(n.args[-1], self if n.args[-1] == 'self' else NO)
        if n.op == 'call':
            c = vq.callee(n)
            if c and str(c[1]) == 'builtins.isinstance' and len(n.args[1]) == 2:
                v = tr.ev(n.args[1][0])
                t = n.args[1][1]
                if t.op == 'ext' and t.args[0] in ('numpy.ndarray', 'pandas.DataFrame', 'pandas.Series'):
                    return isinstance(v, {'numpy.ndarray': Arr, 'pandas.DataFrame': Frame, 'pandas.Series': Ser}[t.args[0]])
        return NO


def stored(ctx, name, has=True, **params):
    m = Model(has, params)
    ip = ctx.interp(CLS + name, opaque=('save_sample', 'load_sample', 'estimate_RID', 'pelicun.base', 'Logger'), key='p28')
    return FTrace(ip, m).run(), m


def compare(res, name, m, extra, what):
    """The stored demands are the old ones and the new ones."""
    at = CLS + name
    if len(m.stored) != 1:
        res.check('kept', False, what, at, f'{what}: demands are stored {len(m.stored)} times')
        return
    t = m.stored[0]
    if not isinstance(t, Frame):
        raise Undecided('stored demands')
    want = {(c, r): x for i, (row, r) in enumerate(zip(sample()[0].rows, (0, 1))) for c, x in zip(COLS, row)}
    want.update({(c, 'Units'): u for c, u in zip(COLS, UNITS)})
    want.update(extra)
    got = {(c, r): x for r, row in zip(t.index.vals, t.rows) for c, x in zip(t.columns.vals, row)}
    double = [c for c in t.columns.vals if t.columns.vals.count(c) > 1] + [c for c in t.index.vals if t.index.vals.count(c) > 1]
    bad = [k for k in want if k not in got or got[k] != want[k]] + [k for k in got if k not in want]
    msg = f'{what}: stored twice {double[:3]}' if double else ''.join(f'{what}: {k[1]} of {"-".join(map(str, k[0])) if isinstance(k[0], tuple) else k[0]} is {got.get(k, "missing")}, not {want.get(k, "stored")}' for k in bad[:1])
    res.check('kept', not bad and not double, what, at, msg)


def adjusted(ctx, res, skipped):
    name = 'estimate_RID_and_adjust_sample'
    at = CLS + name
    ps = {'yield_drift': 0.01}
    for kw in ({}, {'method': 'FEMA P-58'}):
        tr, m = stored(ctx, name, params=ps, **{'method': 'FEMA P58', **kw})
        if tr.raised is not None:
            res.check('kept', False, name, at, f'{tr.raised.name} is raised')
            continue
        d = [(sorted(map(str, a.columns.vals)), p, x) for a, p, x in m.asked]
        ok = len(d) == 1 and d[0][0] == sorted(map(str, [('2', '1'), ('1', '2')])) and d[0][1] == ps and d[0][2] == {'method': 'FEMA P58', **kw}['method']
        res.check('kept', ok, name, at, f'residual drifts are estimated from {d}')
        new = {}
        for c, a, b in ((('RID', '2', '1'), 12.0, 22.0), (('RID', '1', '2'), 13.0, 23.0)):
            new.update({(c, 0): a / 100, (c, 1): b / 100, (c, 'Units'): 'unitless'})
        compare(res, name, m, new, 'residual drifts')
    tr, _m = stored(ctx, name, has=False, params=ps, method='FEMA P58')
    res.check('rejected', tr.raised is not None and tr.raised.name == 'ValueError', name, at, 'residual drifts are added without a sample')


def expanded(ctx, res, skipped):
    name = 'expand_sample'
    at = CLS + name
    one = ('PIH', '3', '2')
    for what, value, cells in (('a constant demand', 0.5, (0.5, 0.5)), ('demands of every realization', Arr((2,), [7.0, 8.0]), (7.0, 8.0))):
        tr, m = stored(ctx, name, label='PIH', value=value, unit='inch', location='3', direction='2')
        if tr.raised is not None:
            res.check('kept', False, name, at, f'{what}: {tr.raised.name} is raised')
            continue
        compare(res, name, m, {(one, 0): cells[0], (one, 1): cells[1], (one, 'Units'): 'inch'}, what)
    tr, _m = stored(ctx, name, label='PIH', value=Arr((3,), [1.0, 2.0, 3.0]), unit='inch', location='3', direction='2')
    res.check('rejected', tr.raised is not None and tr.raised.name == 'ValueError', name, at, 'a wrong number of demands is accepted')
    tr, _m = stored(ctx, name, has=False, label='PIH', value=1.0, unit='inch', location='3', direction='2')
    res.check('rejected', tr.raised is not None and tr.raised.name == 'ValueError', name, at, 'demands are added without a sample')
