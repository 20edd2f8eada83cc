"""Labelled arrays and tables: what the cells of a table hold after the operations of the analysed functions.

Cells hold labels (who the value belongs to) or numbers that identify their origin. The operations of the analysed code are read from its
value-flow graph and applied to these small tables by their documented meaning; an operation that is not known leaves the value undecided.
"""

from __future__ import annotations

import collections
import itertools
import keyword
import math

from . import vq
from .ceval import NO, Raised, Undecided
from .flow import show
from .trace import MUTATE, Trace

NAN = float('nan')


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


class Obj:
    """A modelled object; `m_*` are its methods and `a_*` its attributes."""


class Const(Obj):
    def __init__(self, v):
        self.v = v


class IdxSlice(Obj):
    def get(self, k):
        return k


# -- arrays -----------------------------------------------------------------------
def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.append(n)
        n *= s
    return out[::-1]


def rounded(x, n):
    if isnan(x) or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, float)):
        return round(x, n)
    if isinstance(x, Sym):
        return Sym('round', (x, n))
    raise Undecided('round')


class Arr(Obj):
    shared = False  # another array may have the same values

    def m_round(self, n=0):
        return self.map(lambda x: rounded(x, n))

    def __init__(self, shape, flat):
        self.shape, self.flat = tuple(shape), list(flat)
        if math.prod(self.shape) != len(self.flat):
            raise Raised('ValueError', 'ValueError')

    def __len__(self):
        return self.shape[0]

    def at(self, idx):
        return self.flat[sum(i * s for i, s in zip(idx, strides(self.shape)))]

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self.get(i)

    def map(self, f):
        return Arr(self.shape, [f(x) for x in self.flat])

    def zip(self, o, f, rev=False):
        if isinstance(o, (list, tuple)):
            o = arr(o)
        if isinstance(o, (Ser, Ix)):
            o = Arr((len(o.vals),), o.vals)
        if isinstance(o, Frame):
            raise Undecided('array and table')
        if not isinstance(o, Arr):
            return self.map(lambda x: f(o, x) if rev else f(x, o))
        n = max(len(self.shape), len(o.shape))
        a, b = (1,) * (n - len(self.shape)) + self.shape, (1,) * (n - len(o.shape)) + o.shape
        shape = []
        for x, y in zip(a, b):
            if x != y and 1 not in (x, y):
                raise Raised('ValueError', 'ValueError')
            shape.append(max(x, y) if 0 not in (x, y) else 0)
        A, B = Arr(a, self.flat), Arr(b, o.flat)
        out = []
        for idx in itertools.product(*[range(s) for s in shape]):
            x = A.at([i if s > 1 else 0 for i, s in zip(idx, a)])
            y = B.at([i if s > 1 else 0 for i, s in zip(idx, b)])
            out.append(f(y, x) if rev else f(x, y))
        return Arr(shape, out)

    # attributes
    @property
    def a_shape(self):
        return self.shape

    @property
    def a_size(self):
        return len(self.flat)

    @property
    def a_ndim(self):
        return len(self.shape)

    @property
    def a_T(self):
        return self.m_transpose()

    # methods
    def _m_transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = len(self.shape)
        axes = [a % n for a in axes] if axes else list(range(n))[::-1]
        shape = [self.shape[a] for a in axes]
        out = []
        for idx in itertools.product(*[range(s) for s in shape]):
            src = [0] * n
            for i, a in zip(idx, axes):
                src[a] = i
            out.append(self.at(src))
        return Arr(shape, out)

    def m_swapaxes(self, a, b):
        axes = list(range(len(self.shape)))
        axes[a], axes[b] = axes[b], axes[a]
        return self.m_transpose(*axes)

    def _m_reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        n = math.prod(s for s in shape if s != -1)
        if -1 in shape:
            if shape.count(-1) > 1 or not n or len(self.flat) % n:
                raise Raised('ValueError', 'ValueError')
            shape[shape.index(-1)] = len(self.flat) // n
        if order == 'F':
            return Arr(shape[::-1], self.m_transpose().flat).m_transpose()
        if order != 'C':
            raise Undecided('order')
        return Arr(shape, self.flat)

    def m_ravel(self, order='C'):
        return self.m_reshape(-1, order=order)

    m_flatten = m_ravel

    def m_copy(self):
        return Arr(self.shape, self.flat)

    def m_tolist(self):
        return [x.m_tolist() if isinstance(x, Arr) else x for x in self]

    def m_astype(self, t, **_kw):
        return self.map(caster(t))

    def one(self, f, axis, kw):
        if kw:
            raise Undecided('axis')
        if axis is None or len(self.shape) == 1:
            return f(self.flat)
        if not isinstance(axis, int):
            raise Undecided('axis')
        n = len(self.shape)
        ax = axis % n
        a = moveaxis(self, ax, n - 1)
        m = self.shape[ax]
        return Arr(a.shape[:-1], [f(a.flat[i:i + m]) for i in range(0, len(a.flat), m)] if m else [f([])] * math.prod(a.shape[:-1]))

    def m_any(self, axis=None, **kw):
        return self.one(any, axis, kw)

    def m_all(self, axis=None, **kw):
        return self.one(all, axis, kw)

    def m_sum(self, axis=None, **kw):
        return self.one(sum, axis, kw)

    def m_max(self, axis=None, **kw):
        return self.one(max, axis, kw)

    def m_min(self, axis=None, **kw):
        return self.one(min, axis, kw)

    def _m_squeeze(self):
        return Arr([s for s in self.shape if s != 1], self.flat)

    def m_repeat(self, n, axis=None):
        if axis is None:
            return Arr((len(self.flat) * n,), [x for x in self.flat for _ in range(n)])
        raise Undecided('repeat')

    def _get(self, k):
        ks = list(k) if isinstance(k, tuple) else [k]
        if any(x is Ellipsis for x in ks):
            i = next(i for i, x in enumerate(ks) if x is Ellipsis)
            ks[i:i + 1] = [slice(None)] * (len(self.shape) - len(ks) + 1)
        ks += [slice(None)] * (len(self.shape) - len(ks))
        if len(ks) != len(self.shape):
            raise Undecided('array index')
        sel, keep, lists = [], [], 0
        for x, s in zip(ks, self.shape):
            if isinstance(x, slice):
                sel.append(list(range(s))[x])
                keep.append(True)
            elif isinstance(x, int) and not isinstance(x, bool):
                if not -s <= x < s:
                    raise Raised('IndexError', 'IndexError')
                sel.append([x % s])
                keep.append(False)
            else:
                v = seq(x)
                if v and all(isinstance(y, bool) for y in v):
                    v = [i for i, y in enumerate(v) if y]
                if not all(isinstance(y, int) and -s <= y < s for y in v):
                    raise Raised('IndexError', 'IndexError')
                sel.append([y % s for y in v])
                keep.append(True)
                lists += 1
        if lists > 1:
            raise Undecided('several index arrays')
        out = [self.at(idx) for idx in itertools.product(*sel)]
        shape = [len(x) for x, y in zip(sel, keep) if y]
        return Arr(shape, out) if shape else out[0]

    def put(self, k, v):
        if self.shared:
            raise Undecided('array store')
        at = Arr(self.shape, range(len(self.flat)))._get(k)
        at = at.flat if isinstance(at, Arr) else [at]
        if isinstance(v, (Arr, Ser, Ix, list, tuple)):
            v = arr(v if isinstance(v, (Arr, list, tuple)) else list(v.vals)).flat
            if len(v) == 1:
                v = list(v) * len(at)
            if len(v) != len(at):
                raise Raised('ValueError', 'ValueError')
        elif isinstance(v, Obj):
            raise Undecided('array store')
        else:
            v = [v] * len(at)
        for i, x in zip(at, v):
            self.flat[i] = x

    def m_transpose(self, *axes):
        return self.view(self._m_transpose(*axes))

    def m_reshape(self, *shape, order='C'):
        return self.view(self._m_reshape(*shape, order=order))

    def m_squeeze(self):
        return self.view(self._m_squeeze())

    def get(self, k):
        out = self._get(k)
        if isinstance(out, Arr) and all(isinstance(x, (slice, int)) or x is Ellipsis for x in (k if isinstance(k, tuple) else (k,))):
            self.view(out)
        return out

    def view(self, out):
        self.shared = True
        if isinstance(out, Arr):
            out.shared = True
        return out


def taken(a):
    """Values of a table, which may be changed with it."""
    a.shared = True
    return a


def arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (Ser, Ix)):
        return Arr((len(v.vals),), v.vals)
    if isinstance(v, Frame):
        return v.m_to_numpy()
    if isinstance(v, (list, tuple, range)):
        xs = [arr(x) if isinstance(x, (list, tuple, Arr, Ser, Ix)) else x for x in v]
        if xs and all(isinstance(x, Arr) for x in xs):
            if any(x.shape != xs[0].shape for x in xs):
                raise Raised('ValueError', 'ValueError')
            return Arr((len(xs), *xs[0].shape), [y for x in xs for y in x.flat])
        if any(isinstance(x, Arr) for x in xs):
            raise Undecided('array')
        return Arr((len(xs),), xs)
    raise Undecided('array')


def seq(v):
    """List of the values of something one-dimensional."""
    if isinstance(v, Arr):
        if len(v.shape) != 1:
            raise Undecided('one dimension')
        return list(v.flat)
    if isinstance(v, (Ser, Ix)):
        return list(v.vals)
    if isinstance(v, Frame):
        return list(v.columns.vals)
    if isinstance(v, (list, tuple, set, frozenset, range, dict)) or hasattr(v, '__iter__') and not isinstance(v, (str, Obj)):
        return list(v)
    raise Undecided('sequence')


class Txt:
    """A number that has been read as text."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(str(self.v))


def to_float(x):
    if isinstance(x, Txt):
        return x.v
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError as exc:
            raise Raised('ValueError', 'ValueError') from exc
    return float(x) if isinstance(x, (int, bool)) else x


def caster(t):
    t = t.v if isinstance(t, Const) else t
    name = t if isinstance(t, str) else getattr(t, '__name__', None)
    if name in ('int', 'int64', 'builtins.int', 'numpy.int64', 'int32'):
        def to_int(x):
            if isinstance(x, (int, float, str)) and not isnan(x):
                try:
                    return int(x)
                except ValueError as exc:
                    raise Raised('ValueError', 'ValueError') from exc
            if isnan(x):
                raise Raised('IntCastingNaNError', 'ValueError')
            raise Undecided('cast')
        return to_int
    if name in ('str', 'builtins.str', 'numpy.str_'):
        return text
    if name in ('float', 'float64', 'builtins.float', 'numpy.float64', 'bool', 'builtins.bool', 'object', 'builtins.object', 'category'):
        if 'bool' in name:
            return bool
        if 'float' in name:
            return to_float
        return lambda x: x
    raise Undecided(f'type {name}')


def text(x):
    return x if isinstance(x, str) else str(x)


# -- tables -----------------------------------------------------------------------
class Ix(Obj):
    """Labels of an axis (tuples when there are several levels)."""

    def __init__(self, vals, names=None):
        self.vals = list(vals)
        n = len(self.vals[0]) if self.vals and isinstance(self.vals[0], tuple) else 1
        self.names = list(names) if names is not None else [None] * n

    @property
    def multi(self):
        return len(self.names) > 1

    def __len__(self):
        return len(self.vals)

    def __iter__(self):
        return iter(self.vals)

    def __contains__(self, x):
        return x in self.vals or self.multi and any(v[: len(x) if isinstance(x, tuple) else 1] == (x if isinstance(x, tuple) else (x,)) for v in self.vals)

    def level(self, lv):
        if isinstance(lv, int) and lv not in self.names:
            return lv % len(self.names)
        if lv not in self.names:
            raise Raised('KeyError', 'KeyError')
        return self.names.index(lv)

    def lvals(self, lv):
        if not self.multi:
            self.level(lv)
            return list(self.vals)
        i = self.level(lv)
        return [v[i] for v in self.vals]

    def drop(self, ls):
        keep = [i for i in range(len(self.names)) if i not in ls]
        return Ix([tuple(v[i] for i in keep) if len(keep) > 1 else v[keep[0]] for v in self.vals], [self.names[i] for i in keep])

    def take(self, pos):
        return Ix([self.vals[i] for i in pos], self.names)

    @property
    def a_size(self):
        return len(self.vals)

    @property
    def a_shape(self):
        return (len(self.vals),)

    @property
    def a_nlevels(self):
        return len(self.names)

    @property
    def a_names(self):
        return list(self.names)

    @property
    def a_name(self):
        return self.names[0]

    @property
    def a_values(self):
        return taken(Arr((len(self.vals),), self.vals))

    @property
    def a_empty(self):
        return not self.vals

    @property
    def a_is_unique(self):
        return len(set(self.vals)) == len(self.vals)

    def m_unique(self, level=None):
        vs = self.vals if level is None else self.lvals(level)
        return Ix(dict.fromkeys(vs), self.names if level is None else [self.names[self.level(level)]])

    def m_duplicated(self, keep='first'):
        vs = self.vals
        if keep not in ('first', 'last', False):
            raise Raised('ValueError', 'ValueError')
        return Arr((len(vs),), [v in vs[:i] if keep == 'first' else v in vs[i + 1:] if keep == 'last' else vs.count(v) > 1 for i, v in enumerate(vs)])

    def m_drop_duplicates(self, keep='first'):
        return self.take([i for i, d in enumerate(self.m_duplicated(keep).flat) if not d])

    def m_get_level_values(self, lv):
        return Ix(self.lvals(lv), [self.names[self.level(lv)]])

    def m_to_frame(self, index=True, name=None):
        if name is not None or len(self.names) > 1 and None in self.names:
            raise Undecided('to_frame')
        cols = self.names if self.multi else [0 if x is None else x for x in self.names]
        return Frame(self if index else Ix(list(range(len(self.vals)))), Ix(cols), [list(v) if self.multi else [v] for v in self.vals])

    def m_tolist(self):
        return list(self.vals)

    m_to_list = m_tolist

    def m_to_numpy(self, **_kw):
        return self.a_values

    def m_astype(self, t):
        if self.multi:
            raise Undecided('type of labels')
        return Ix([caster(t)(x) for x in self.vals], self.names)

    @property
    def a_str(self):
        if self.multi:
            raise Undecided('texts')
        return Strings(self.vals, lambda v: Arr((len(v),), v) if all(isinstance(x, bool) for x in v) else Ix(v, self.names))

    def m_copy(self):
        return Ix(self.vals, self.names)

    def m_isin(self, values=None, level=None):
        vs = set(seq(values))
        return Arr((len(self.vals),), [v in vs for v in (self.vals if level is None else self.lvals(level))])

    def m_intersection(self, o):
        o = seq(o)
        return Ix([v for v in self.m_unique().vals if v in o], self.names)

    def m_difference(self, o):
        o = seq(o)
        return Ix(sorted(v for v in self.m_unique().vals if v not in o), self.names)

    def m_union(self, o):
        return Ix(sorted({*self.vals, *seq(o)}), self.names)

    def m_sort_values(self, ascending=True):
        return Ix(sorted(self.vals, reverse=not ascending), self.names)

    def m_map(self, f):
        raise Undecided('map of labels')

    def m_get_loc(self, k):
        return self.vals.index(k)

    def m_droplevel(self, lv):
        return self.drop([self.level(x) for x in (lv if isinstance(lv, (list, tuple)) else [lv])])

    def m_reorder_levels(self, order):
        pos = [self.level(x) for x in seq(order)]
        if sorted(pos) != list(range(len(self.names))):
            raise Raised('AssertionError', 'AssertionError')
        return Ix([tuple(v[i] for i in pos) for v in self.vals], [self.names[i] for i in pos])

    def m_set_names(self, names, level=None, inplace=False):
        if inplace:
            raise Undecided('set_names')
        names = seq(names) if isinstance(names, (list, tuple, Obj)) else [names]
        if level is not None:
            level = [self.level(x) for x in (level if isinstance(level, (list, tuple)) else [level])]
            if len(level) != len(names):
                raise Raised('ValueError', 'ValueError')
            out = list(self.names)
            for i, x in zip(level, names):
                out[i] = x
            return Ix(self.vals, out)
        if len(names) != len(self.names):
            raise Raised('ValueError', 'ValueError')
        return Ix(self.vals, list(names))

    def get(self, k):
        v = self.a_values.get(k)
        return Ix(v.flat, self.names) if isinstance(v, Arr) else v


def locate(ix, k):
    """(positions, labels left) of a key of an axis; None for labels means that a single entry was chosen."""
    if isinstance(k, slice):
        if k == slice(None):
            return list(range(len(ix))), ix
        vs = ix.vals
        ends = [x for x in (k.start, k.stop) if x is not None]
        if ix.multi or k.step is not None or any(isinstance(x, bool) or not isinstance(x, (int, float)) for x in (*vs, *ends)) or any(not x < y for x, y in zip(vs, vs[1:])):
            raise Undecided('label slice')
        pos = [i for i, x in enumerate(vs) if (k.start is None or x >= k.start) and (k.stop is None or x <= k.stop)]
        return pos, ix.take(pos)
    if isinstance(k, (list, Arr, Ix, Ser)) or isinstance(k, set):
        vs = seq(k)
        if isinstance(k, (list, Arr, Ser)) and vs and all(isinstance(v, bool) for v in vs):
            if len(vs) != len(ix):
                raise Raised('IndexError', 'IndexError')
            pos = [i for i, v in enumerate(vs) if v]
            return pos, ix.take(pos)
        pos = []
        for v in vs:
            if ix.multi and not (isinstance(v, tuple) and len(v) == len(ix.names)):
                if isinstance(v, tuple):
                    raise Undecided('partial labels')
                p = [i for i, x in enumerate(ix.vals) if x[0] == v]
            else:
                p = [i for i, x in enumerate(ix.vals) if x == v]
            if not p:
                raise Raised('KeyError', 'KeyError')
            pos += p
        if ix.multi and vs and not isinstance(vs[0], tuple):
            pos = sorted(pos)
        return pos, ix.take(pos)
    if ix.multi:
        ks = k if isinstance(k, tuple) else (k,)
        pos = list(range(len(ix)))
        gone = []
        for i, x in enumerate(ks):
            if isinstance(x, slice):
                if x != slice(None):
                    raise Undecided('label slice')
            elif isinstance(x, (list, Arr, Ix, Ser, set)):
                vs = seq(x)
                if any(v not in {ix.vals[p][i] for p in range(len(ix))} for v in vs):
                    raise Raised('KeyError', 'KeyError')
                pos = [p for p in pos if ix.vals[p][i] in vs]
            else:
                pos = [p for p in pos if ix.vals[p][i] == x]
                gone.append(i)
        if not pos:
            raise Raised('KeyError', 'KeyError')
        if len(gone) == len(ix.names):
            return pos, None if len(pos) == 1 else ix.take(pos)
        if gone and len(gone) != len(ks):
            # a mixture of labels and slices keeps all levels
            return pos, ix.take(pos)
        return pos, ix.take(pos).drop(gone) if gone else ix.take(pos)
    pos = [i for i, x in enumerate(ix.vals) if x == k]
    if not pos:
        raise Raised('KeyError', 'KeyError')
    return pos, None if len(pos) == 1 else ix.take(pos)


def ipos(n, k):
    if isinstance(k, slice):
        return list(range(n))[k], True
    if isinstance(k, int) and not isinstance(k, bool):
        if not -n <= k < n:
            raise Raised('IndexError', 'IndexError')
        return [k % n], False
    vs = seq(k)
    if vs and all(isinstance(v, bool) for v in vs):
        return [i for i, v in enumerate(vs) if v], True
    if any(not isinstance(v, int) or not -n <= v < n for v in vs):
        raise Raised('IndexError', 'IndexError')
    return [v % n for v in vs], True


def outer(a, b):
    """The labels of two axes, in order when they differ."""
    if a.vals == b.vals:
        return a
    if len(set(a.vals)) != len(a.vals) or len(set(b.vals)) != len(b.vals) or len(a.names) != len(b.names):
        raise Undecided('alignment')
    try:
        return Ix(sorted({*a.vals, *b.vals}), [x if x == y else None for x, y in zip(a.names, b.names)])
    except TypeError as exc:
        raise Undecided('alignment') from exc


def missing(ix, k):
    try:
        locate(ix, k)
    except Raised as exc:
        return exc.name == 'KeyError'
    except Undecided:
        return k not in ix.vals
    return False


class Loc(Obj):
    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind

    def pick(self, ix, k):
        if self.kind in ('loc', 'at'):
            return locate(ix, k)
        pos, many = ipos(len(ix), k)
        return pos, ix.take(pos) if many else None

    def get(self, k):
        o = self.obj
        if isinstance(o, Ser):
            if self.kind == 'loc' and isinstance(k, tuple) and not o.index.multi:
                k = k[0]
            pos, left = self.pick(o.index, k)
            return o.vals[pos[0]] if left is None else Ser(left, [o.vals[i] for i in pos], o.name)
        two = isinstance(k, tuple) and len(k) == 2 and not (o.index.multi and self.kind == 'loc' and not any(isinstance(x, slice) or isinstance(x, (list, tuple, Obj)) for x in k))
        rk, ck = k if two else (k, slice(None))
        rp, rl = self.pick(o.index, rk)
        cp, cl = self.pick(o.columns, ck)
        return o.sub(rp, rl, cp, cl)

    def put(self, k, v):
        o = self.obj
        if isinstance(o, Ser) and self.kind == 'loc' and o.index.multi and isinstance(k, (str, int, float)) and not isinstance(k, bool):
            k = (k,) if any(x[0] == k for x in o.index.vals) else (k, *[''] * (len(o.index.names) - 1))
        if isinstance(o, Ser) and self.kind == 'loc' and o.index.multi and isinstance(k, tuple) and k and k[-1] == slice(None) and len(k) <= len(o.index.names):
            while k and isinstance(k[-1], slice) and k[-1] == slice(None):
                k = k[:-1]
            if not k:
                raise Undecided('store')
        if isinstance(o, Ser) and self.kind in ('loc', 'at') and o.index.multi and isinstance(k, tuple) and len(k) < len(o.index.names) \
                and not any(isinstance(x, (slice, list, Obj)) for x in k):
            part = [i for i, x in enumerate(o.index.vals) if x[:len(k)] == k]
            if not part:
                raise Raised('KeyError', 'KeyError')
            vs = seq(v) if isinstance(v, (list, Arr, Ser)) else [v] * len(part)
            if isinstance(v, Ser) or len(vs) != len(part):
                raise Undecided('aligned store')
            for p, x in zip(part, vs):
                o.vals[p] = x
            return
        if isinstance(o, Ser):
            pos, _l = self.pick(o.index, k) if not (self.kind == 'loc' and not isinstance(k, (slice, list, Obj)) and k not in o.index.vals) else (None, None)
            if pos is None:
                o.index = Ix([*o.index.vals, k], o.index.names)
                o.vals.append(v)
                return
            vs = seq(v) if isinstance(v, (list, Arr, Ser)) else [v] * len(pos)
            for p, x in zip(pos, vs):
                o.vals[p] = x
            return
        two = isinstance(k, tuple) and len(k) == 2
        rk, ck = k if two else (k, slice(None))
        if self.kind in ('loc', 'at') and not isinstance(ck, (slice, list, Obj)) and missing(o.columns, ck):
            if isinstance(rk, slice) and rk == slice(None):
                o.put(ck, v)
                return
            if o.columns.multi and not (isinstance(ck, tuple) and len(ck) == len(o.columns.names)) or isinstance(v, Obj):
                raise Undecided('new column')
            o.columns = Ix([*o.columns.vals, ck], o.columns.names)
            o.rows[:] = [[*r, NAN] for r in o.rows]
        if self.kind in ('loc', 'at') and not isinstance(rk, (slice, list, Obj)) and missing(o.index, rk):
            if o.index.multi and not (isinstance(rk, tuple) and len(rk) == len(o.index.names)):
                raise Undecided('new row')
            if isinstance(ck, slice) and isinstance(v, Obj) and not (isinstance(v, (Ser, Arr)) and not isinstance(rk, tuple) and ck == slice(None)):
                raise Undecided('new row')
            o.index = Ix([*o.index.vals, rk], o.index.names)
            o.rows.append([NAN] * len(o.columns))
        rp, rl = self.pick(o.index, rk)
        cp, cl = self.pick(o.columns, ck)
        if isinstance(v, (Frame, Ser)):
            if isinstance(v, Ser) and rl is None and cl is None:
                raise Raised('ValueError', 'ValueError')
            if isinstance(v, Ser) and rl is None:
                lab = dict(zip(v.index.vals, v.vals))
                for c in cp:
                    o.rows[rp[0]][c] = lab.get(o.columns.vals[c], NAN)
                return
            if isinstance(v, Ser) and len(cp) == 1:
                lab = dict(zip(v.index.vals, v.vals))
                for r in rp:
                    o.rows[r][cp[0]] = lab.get(o.index.vals[r], NAN)
                return
            if isinstance(v, Frame) and rl is not None and cl is not None:
                if len(v.index) != len(rp) or len(v.columns) != len(cp):
                    raise Undecided('aligned store')
                if self.kind == 'iloc' or v.index.vals == rl.vals and v.columns.vals == cl.vals:
                    for r, row in zip(rp, v.rows):
                        for c, x in zip(cp, row):
                            o.rows[r][c] = x
                    return
            raise Undecided('aligned store')
        a = v if isinstance(v, Arr) else arr(v) if isinstance(v, (list, tuple)) else None
        for i, r in enumerate(rp):
            for j, c in enumerate(cp):
                if a is None:
                    o.rows[r][c] = v
                elif len(a.shape) == 2:
                    o.rows[r][c] = a.at((i, j))
                elif len(rp) == 1 or len(cp) == len(a.flat) != len(rp):
                    o.rows[r][c] = a.flat[j]
                else:
                    o.rows[r][c] = a.flat[i]


def nums(v):
    return [x for x in v if not isnan(x)]


def plain(kw, *allowed):
    for k, v in kw.items():
        if k not in (*allowed, 'copy', 'numeric_only', 'observed', 'engine') and not (k in ('inplace', 'skipna') and v == (k == 'skipna')):
            raise Undecided(f'argument {k}')


class Cells(Obj):
    """Operations on every cell."""

    def m_isna(self):
        return self.map(isnan)

    m_isnull = m_isna

    def m_notna(self):
        return self.map(lambda x: not isnan(x))

    m_notnull = m_notna

    def m_abs(self):
        return self.map(abs)

    def m_clip(self, lower=None, upper=None, **kw):
        plain(kw)
        if isinstance(lower, Obj) or isinstance(upper, Obj):
            raise Undecided('clip')
        return self.map(lambda x: x if isnan(x) else max(lower, x) if lower is not None and x < lower else min(upper, x) if upper is not None and x > upper else x)

    def m_replace(self, old=None, new=None, **kw):
        plain(kw)
        if isinstance(old, dict) and new is None and not any(isinstance(v, dict) for v in old.values()):
            return self.map(lambda x: next((v for k, v in old.items() if same_cell(x, k)), x))
        if isinstance(old, (Obj, dict, list)) or isinstance(new, (Obj, dict, list)) or new is None or isinstance(old, str) and kw:
            raise Undecided('replace')
        return self.map(lambda x: new if same_cell(x, old) else x)

    def arith(self, o, f, axis, fill_value, level):
        if fill_value is not None or level is not None:
            raise Undecided('arithmetic')
        if isinstance(self, Frame) and (isinstance(o, (Ser, Ix, list)) or isinstance(o, Arr) and len(o.shape) == 1):
            return self.along(o, f, 1 if axis is None else axis)
        return self.zip(o, f)

    def m_convert_dtypes(self, **_kw):
        return self.m_copy()

    def m_sub(self, o, axis=None, level=None, fill_value=None):
        return self.arith(o, lambda x, y: x - y, axis, fill_value, level)

    def m_div(self, o, axis=None, level=None, fill_value=None):
        return self.arith(o, lambda x, y: x / y, axis, fill_value, level)

    m_truediv = m_divide = m_div
    m_subtract = m_sub

    def m_pow(self, o, axis=None, level=None, fill_value=None):
        return self.arith(o, lambda x, y: x**y, axis, fill_value, level)

    def m_eq(self, o, axis=None, level=None):
        return self.arith(o, lambda x, y: x == y, axis, None, level)

    def m_ne(self, o, axis=None, level=None):
        return self.arith(o, lambda x, y: x != y, axis, None, level)

    def m_gt(self, o, axis=None, level=None):
        return self.arith(o, lambda x, y: x > y, axis, None, level)

    def m_ge(self, o, axis=None, level=None):
        return self.arith(o, lambda x, y: x >= y, axis, None, level)

    def m_lt(self, o, axis=None, level=None):
        return self.arith(o, lambda x, y: x < y, axis, None, level)

    def m_le(self, o, axis=None, level=None):
        return self.arith(o, lambda x, y: x <= y, axis, None, level)

    def cells(self, pos):
        if isinstance(self, Frame):
            return self.sub(pos, self.index.take(pos), list(range(len(self.columns))), self.columns)
        return Ser(self.index.take(pos), [self.vals[i] for i in pos], self.name)

    def m_head(self, n=5):
        return self.cells(list(range(len(self.index)))[:n])

    def m_tail(self, n=5):
        return self.cells(list(range(len(self.index)))[-n:] if n else [])


def same_cell(x, y):
    return isnan(x) and isnan(y) or type(x) in (int, float, bool) and type(y) in (int, float, bool) and x == y or type(x) is type(y) and x == y


class Ser(Cells):
    def m_any(self, **kw):
        plain(kw, 'axis')
        return any(self.vals)

    def m_all(self, **kw):
        plain(kw, 'axis')
        return all(self.vals)

    def m_count(self):
        return len(nums(self.vals))

    def m_mean(self, **kw):
        plain(kw)
        return REDUCE['mean'](self.vals)

    def m_std(self, ddof=1, **kw):
        plain(kw)
        return deviation(Arr((len(nums(self.vals)),), nums(self.vals)), ddof)

    def m_var(self, ddof=1, **kw):
        return self.m_std(ddof, **kw) ** 2

    def m_duplicated(self, keep='first'):
        return Ser(self.index, repeats(self.vals, keep), self.name)

    def m_nunique(self, **kw):
        plain(kw)
        return len(set(nums(self.vals)))

    def m_dropna(self, **kw):
        plain(kw, 'axis')
        return self.cells([i for i, x in enumerate(self.vals) if not isnan(x)])

    def m_ffill(self, **kw):
        plain(kw)
        out = []
        for x in self.vals:
            out.append(out[-1] if isnan(x) and out else x)
        return Ser(self.index, out, self.name)

    def m_bfill(self, **kw):
        plain(kw)
        return Ser(self.index, Ser(self.index, self.vals[::-1]).m_ffill().vals[::-1], self.name)

    def m_fillna(self, v, **kw):
        plain(kw)
        if isinstance(v, Ser):
            v = dict(zip(v.index.vals, v.vals))
        if isinstance(v, dict):
            return Ser(self.index, [v.get(i, x) if isnan(x) else x for i, x in zip(self.index.vals, self.vals)], self.name)
        if isinstance(v, Obj):
            raise Undecided('fillna')
        return self.map(lambda x: v if isnan(x) else x)

    def masked(self, cond, other, when):
        if isinstance(cond, Ser) and cond.index.vals != self.index.vals:
            raise Undecided('alignment')
        if isinstance(other, Ser):
            if other.index.vals != self.index.vals:
                raise Undecided('alignment')
        elif isinstance(other, Obj):
            raise Undecided('mask')
        c = seq(cond)
        if len(c) != len(self.vals):
            raise Undecided('mask')
        return Ser(self.index, [(other.vals[i] if isinstance(other, Ser) else other) if bool(b) == when else x for i, (x, b) in enumerate(zip(self.vals, c))], self.name)

    def m_mask(self, cond, other=NAN, **kw):
        plain(kw)
        return self.masked(cond, other, True)

    def m_where(self, cond, other=NAN, **kw):
        plain(kw)
        return self.masked(cond, other, False)

    def m_map(self, f, **kw):
        plain(kw)
        if isinstance(f, Ser):
            f = dict(zip(f.index.vals, f.vals))
        if not isinstance(f, dict):
            raise Undecided('map')
        return self.map(lambda x: f.get(x, NAN))

    def m_drop(self, labels=None, index=None, **kw):
        plain(kw, 'axis')
        labels = labels if labels is not None else index
        vs = seq(labels) if isinstance(labels, (list, Ix, Arr, Ser)) else [labels]
        if any(v not in self.index.vals for v in vs):
            raise Undecided('drop') if self.index.multi else Raised('KeyError', 'KeyError')
        return self.cells([i for i, k in enumerate(self.index.vals) if k not in vs])

    def m_rename(self, index=None, **kw):
        plain(kw)
        if isinstance(index, dict):
            if self.index.multi:
                raise Undecided('rename')
            return Ser(Ix([index.get(k, k) for k in self.index.vals], self.index.names), self.vals, self.name)
        if isinstance(index, Obj):
            raise Undecided('rename')
        return Ser(self.index, self.vals, index)

    def m_cumsum(self, **kw):
        plain(kw, 'axis')
        if any(isnan(x) for x in self.vals):
            raise Undecided('cumsum')
        return Ser(self.index, list(itertools.accumulate(self.vals)), self.name)

    def m_value_counts(self, normalize=False, sort=True, **kw):
        plain(kw, 'ascending')
        if not sort or kw.get('ascending'):
            raise Undecided('value_counts')
        known = [x for x in self.vals if not isnan(x)]
        found = sorted(dict.fromkeys(known), key=lambda x: -known.count(x))
        return Ser(Ix(found, [self.name]), [known.count(x) / (len(known) if normalize else 1) if normalize else known.count(x) for x in found], 'proportion' if normalize else 'count')

    def m_idxmax(self, **kw):
        plain(kw)
        return self.index.vals[self.vals.index(max(nums(self.vals)))]

    def m_idxmin(self, **kw):
        plain(kw)
        return self.index.vals[self.vals.index(min(nums(self.vals)))]

    def m_sort_values(self, ascending=True, **kw):
        plain(kw)
        if any(isnan(v) for v in self.vals) or len(set(self.vals)) != len(self.vals):
            raise Undecided('sort')
        return self.cells(sorted(range(len(self.vals)), key=lambda i: self.vals[i], reverse=not ascending))

    def m_reset_index(self, drop=False, **kw):
        plain(kw)
        if not drop:
            return Frame(self.index, Ix([0 if self.name is None else self.name]), [[v] for v in self.vals]).m_reset_index()
        return Ser(Ix(range(len(self.vals))), self.vals, self.name)

    def m_droplevel(self, lv, **kw):
        plain(kw, 'axis')
        return Ser(self.index.m_droplevel(lv), self.vals, self.name)

    def m_add(self, o, fill_value=None, **kw):
        plain(kw, 'axis')
        if fill_value is not None:
            raise Undecided('add')
        return self.zip(o, lambda x, y: x + y)

    def m_mul(self, o, fill_value=None, **kw):
        plain(kw, 'axis')
        if fill_value is not None:
            raise Undecided('mul')
        return self.zip(o, times)

    m_multiply = m_mul

    def m_squeeze(self, **kw):
        plain(kw)
        return self.vals[0] if len(self.vals) == 1 else self

    def m_keys(self):
        return self.index

    def __init__(self, index, vals, name=None):
        self.index, self.vals, self.name = index if isinstance(index, Ix) else Ix(index), list(vals), name
        if len(self.index) != len(self.vals):
            raise Raised('ValueError', 'ValueError')

    def __len__(self):
        return len(self.vals)

    def __contains__(self, x):
        return x in self.index

    def __iter__(self):
        return iter(self.vals)

    def m_round(self, decimals=0):
        return self.map(lambda x: rounded(x, decimals))

    def map(self, f):
        return Ser(self.index, [f(x) for x in self.vals], self.name)

    def zip(self, o, f, rev=False):
        if isinstance(o, Ser):
            if o.index.vals != self.index.vals:
                raise Undecided('alignment')
            o = o.vals
        if isinstance(o, Frame):
            raise Undecided('alignment')
        if isinstance(o, (Arr, Ix, list)):
            o = seq(o)
            if len(o) != len(self.vals):
                raise Raised('ValueError', 'ValueError')
            return Ser(self.index, [f(y, x) if rev else f(x, y) for x, y in zip(self.vals, o)], self.name)
        return self.map(lambda x: f(o, x) if rev else f(x, o))

    @property
    def a_index(self):
        return self.index

    @property
    def a_values(self):
        return taken(Arr((len(self.vals),), self.vals))

    @property
    def a_name(self):
        return self.name

    @property
    def a_size(self):
        return len(self.vals)

    @property
    def a_shape(self):
        return (len(self.vals),)

    @property
    def a_empty(self):
        return not self.vals

    @property
    def a_loc(self):
        return Loc(self, 'loc')

    a_at = a_loc

    @property
    def a_iloc(self):
        return Loc(self, 'iloc')

    @property
    def a_T(self):
        return self

    def s_index(self, v):
        self.index = v if isinstance(v, Ix) else Ix(seq(v))

    def get(self, k):
        return Loc(self, 'loc').get(k)

    def put(self, k, v):
        Loc(self, 'loc').put(k, v)

    def m_to_numpy(self, **_kw):
        return self.a_values

    def m_unique(self):
        return Arr((len(dict.fromkeys(self.vals)),), dict.fromkeys(self.vals))

    def m_tolist(self):
        return list(self.vals)

    m_to_list = m_tolist

    def m_to_dict(self):
        return dict(zip(self.index.vals, self.vals))

    def m_items(self):
        return list(zip(self.index.vals, self.vals))

    @property
    def a_str(self):
        return Strings(self.vals, lambda v: Ser(self.index, v, self.name))

    def m_astype(self, t):
        return self.map(caster(t))

    def m_copy(self, **_kw):
        return Ser(self.index, self.vals, self.name)

    def m_isin(self, vs):
        vs = seq(vs)
        return self.map(lambda x: x in vs)

    def m_sort_index(self, **kw):
        if kw:
            raise Undecided('sort')
        o = sorted(range(len(self.vals)), key=lambda i: self.index.vals[i])
        return Ser(self.index.take(o), [self.vals[i] for i in o], self.name)

    def m_reindex(self, index=None, fill_value=NAN):
        d = dict(zip(self.index.vals, self.vals))
        return Ser(index if isinstance(index, Ix) else Ix(seq(index)), [d.get(k, fill_value) for k in seq(index)], self.name)

    def m_to_frame(self, name=None):
        return Frame(self.index, Ix([name if name is not None else self.name if self.name is not None else 0]), [[v] for v in self.vals])

    def m_groupby(self, by=None, level=None, **kw):
        f = self.m_to_frame('_v')
        return Groups(f, f.groups(by, level, kw), self)

    def m_sum(self, **kw):
        return self.reduced(total, kw)

    def m_max(self, **kw):
        return self.reduced(REDUCE['max'], kw)

    def m_min(self, **kw):
        return self.reduced(REDUCE['min'], kw)

    def reduced(self, f, kw):
        plain(kw, 'axis', 'min_count')
        return least(f, kw)(self.vals)

    def m_get(self, k, d=None):
        return dict(zip(self.index.vals, self.vals)).get(k, d)


def total(vs):
    vs = [v for v in vs if not isnan(v)]
    if all(isinstance(v, (int, float)) for v in vs):
        return sum(vs)
    if all(isinstance(v, str) for v in vs):
        return ''.join(vs)
    if len(vs) == 1:
        return vs[0]
    if all(isinstance(v, Sym) for v in vs):
        return Sym('sum', tuple(sorted(vs, key=repr)))
    raise Undecided('sum')


class Sym:
    """A symbolic cell."""

    def __init__(self, op, args):
        self.k = (op, args)

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f'{self.k[0]}{self.k[1]}'


def least(f, kw):
    n = kw.get('min_count', 0)
    if n <= 0:
        return f
    return lambda v: f(v) if len(nums(v)) >= n else NAN


class Frame(Cells):
    def m_insert(self, loc, column, value, allow_duplicates=False):
        if not 0 <= loc <= len(self.columns):
            raise Raised('IndexError', 'IndexError')
        if column in self.columns.vals and not allow_duplicates:
            raise Raised('ValueError', 'ValueError')
        if self.columns.multi:
            raise Undecided('insert')
        vs = [NAN] * len(self.rows)
        if isinstance(value, Ser):
            lab = dict(zip(value.index.vals, value.vals))
            vs = [lab.get(i, NAN) for i in self.index.vals]
        elif isinstance(value, (list, Arr, Ix)):
            vs = seq(value)
            if len(vs) != len(self.rows):
                raise Raised('ValueError', 'ValueError')
        elif isinstance(value, Obj):
            raise Undecided('insert')
        else:
            vs = [value] * len(self.rows)
        self.columns = Ix([*self.columns.vals[:loc], column, *self.columns.vals[loc:]], self.columns.names)
        for r, v in zip(self.rows, vs):
            r.insert(loc, v)

    def m_pop(self, column):
        if column not in self.columns.vals:
            raise Raised('KeyError', 'KeyError')
        j = self.columns.vals.index(column)
        out = Ser(self.index, [r[j] for r in self.rows], column)
        self.columns = Ix([c for i, c in enumerate(self.columns.vals) if i != j], self.columns.names)
        for r in self.rows:
            del r[j]
        return out

    def m_any(self, axis=0, **kw):
        plain(kw)
        return any(any(r) for r in self.rows) if axis is None else self.reduce(any, axis)

    def m_all(self, axis=0, **kw):
        plain(kw)
        return all(all(r) for r in self.rows) if axis is None else self.reduce(all, axis)

    def m_count(self, axis=0, **kw):
        plain(kw)
        return self.reduce(lambda v: len(nums(v)), axis)

    def m_mean(self, axis=0, **kw):
        plain(kw)
        return self.reduce(REDUCE['mean'], axis)

    def m_duplicated(self, subset=None, keep='first'):
        at = range(len(self.columns)) if subset is None else [self.columns.vals.index(c) for c in (subset if isinstance(subset, list) else [subset])]
        return Ser(self.index, repeats([tuple(r[j] for j in at) for r in self.rows], keep))

    def m_nunique(self, axis=0, **kw):
        plain(kw)
        return self.reduce(lambda v: len(set(nums(v))), axis)

    def m_dropna(self, axis=0, how='any', subset=None, **kw):
        plain(kw)
        if axis in (1, 'columns'):
            return self.a_T.m_dropna(how=how, subset=subset).a_T
        at = range(len(self.columns)) if subset is None else [self.columns.vals.index(c) for c in (subset if isinstance(subset, list) else [subset])]
        return self.cells([i for i, r in enumerate(self.rows) if not (any if how == 'any' else all)(isnan(r[j]) for j in at)])

    def m_assign(self, **kw):
        out = self.m_copy()
        for k, v in kw.items():
            out.put(k, v)
        return out

    def m_squeeze(self, axis=None):
        if axis is None and len(self.columns) == 1 and len(self.index) > 1:
            return Ser(self.index, [r[0] for r in self.rows], self.columns.vals[0])
        raise Undecided('squeeze')

    def m_keys(self):
        return self.columns

    def m_idxmin(self, axis=0, **kw):
        plain(kw)
        if axis in (1, 'columns'):
            return Ser(self.index, [self.columns.vals[r.index(min(nums(r)))] for r in self.rows])
        return self.a_T.m_idxmin(axis=1)

    def __init__(self, index, columns, rows):
        self.index = index if isinstance(index, Ix) else Ix(index)
        self.columns = columns if isinstance(columns, Ix) else Ix(columns)
        self.rows = [list(r) for r in rows]
        if len(self.rows) != len(self.index) or any(len(r) != len(self.columns) for r in self.rows):
            raise Raised('ValueError', 'ValueError')

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.columns.vals)

    def __contains__(self, x):
        return x in self.columns

    def sub(self, rp, rl, cp, cl):
        if rl is None and cl is None:
            return self.rows[rp[0]][cp[0]]
        if cl is None:
            return Ser(rl, [self.rows[i][cp[0]] for i in rp], self.columns.vals[cp[0]])
        if rl is None:
            return Ser(cl, [self.rows[rp[0]][j] for j in cp], self.index.vals[rp[0]])
        return Frame(rl, cl, [[self.rows[i][j] for j in cp] for i in rp])

    def m_round(self, decimals=0):
        return self.map(lambda x: rounded(x, decimals))

    def map(self, f):
        return Frame(self.index, self.columns, [[f(x) for x in r] for r in self.rows])

    def zip(self, o, f, rev=False):
        g = (lambda x, y: f(y, x)) if rev else f
        if isinstance(o, Frame):
            if o.index.vals != self.index.vals or o.columns.vals != self.columns.vals:
                if f not in OPS.values():
                    raise Undecided('alignment')
                a, b = self.aligned(o)
                return a.zip(b, f, rev)
            return Frame(self.index, self.columns, [[g(x, y) for x, y in zip(r, q)] for r, q in zip(self.rows, o.rows)])
        if isinstance(o, Arr):
            a = self.m_to_numpy().zip(o, g)
            return Frame(self.index, self.columns, a.m_tolist())
        if isinstance(o, Ser):
            return self.along(o, g, 1)
        if isinstance(o, (list, Ix)):
            return self.zip(arr(o), f, rev)
        return self.map(lambda x: g(x, o))

    def aligned(self, o):
        """Both tables with the labels of both."""
        ix, cs = (outer(getattr(self, a), getattr(o, a)) for a in ('index', 'columns'))
        return self.m_reindex(index=ix, columns=cs), o.m_reindex(index=ix, columns=cs)

    def m_combine_first(self, o):
        if not isinstance(o, Frame):
            raise Undecided('combine_first')
        a, b = self.aligned(o)
        return Frame(a.index, a.columns, [[y if isnan(x) else x for x, y in zip(r, q)] for r, q in zip(a.rows, b.rows)])

    def along(self, o, f, axis):
        if axis in (1, 'columns'):
            if isinstance(o, Ser):
                d = dict(zip(o.index.vals, o.vals))
                if list(d) != self.columns.vals:
                    if set(d) != set(self.columns.vals):
                        raise Undecided('alignment')
                vs = [d[c] for c in self.columns.vals]
            else:
                vs = seq(o)
            if len(vs) != len(self.columns):
                raise Raised('ValueError', 'ValueError')
            return Frame(self.index, self.columns, [[f(x, y) for x, y in zip(r, vs)] for r in self.rows])
        return self.a_T.along(o, f, 1).a_T

    @property
    def a_index(self):
        return self.index

    @property
    def a_columns(self):
        return self.columns

    def s_index(self, v):
        v = v if isinstance(v, Ix) else Ix(seq(v))
        if len(v) != len(self.index):
            raise Raised('ValueError', 'ValueError')
        self.index = v

    def s_columns(self, v):
        v = v if isinstance(v, Ix) else Ix(seq(v))
        if len(v) != len(self.columns):
            raise Raised('ValueError', 'ValueError')
        self.columns = v

    @property
    def a_T(self):
        return Frame(self.columns, self.index, [[r[j] for r in self.rows] for j in range(len(self.columns))])

    @property
    def a_shape(self):
        return (len(self.index), len(self.columns))

    @property
    def a_empty(self):
        return not self.rows or not self.columns.vals

    @property
    def a_values(self):
        return self.m_to_numpy()

    @property
    def a_loc(self):
        return Loc(self, 'loc')

    a_at = a_loc

    @property
    def a_iloc(self):
        return Loc(self, 'iloc')

    def get(self, k):
        if isinstance(k, slice):
            rp, many = ipos(len(self.index), k)
            return self.sub(rp, self.index.take(rp), list(range(len(self.columns))), self.columns)
        if isinstance(k, Frame) or isinstance(k, Arr) and len(k.shape) == 2:
            return self.masked(k, NAN, False)
        if isinstance(k, (list, Arr, Ser, Ix)):
            vs = seq(k)
            if vs and all(isinstance(v, bool) for v in vs):
                rp, rl = locate(self.index, list(vs))
                return self.sub(rp, rl, list(range(len(self.columns))), self.columns)
        cp, cl = locate(self.columns, k)
        out = self.sub(list(range(len(self.index))), self.index, cp, cl)
        if isinstance(out, Frame) and len(out.columns) == 1 and not isinstance(k, tuple) and self.columns.multi:
            top = out.columns.vals[0]
            if (top[0] if isinstance(top, tuple) else top) == '':
                out = out.get('')
                if isinstance(out, Ser):
                    out.name = k
        return out

    def put(self, k, v):
        if isinstance(k, Frame) or isinstance(k, Arr) and len(k.shape) == 2:
            self.rows[:] = [list(r) for r in self.masked(k, v, True).rows]
            return
        if isinstance(k, (list, slice, Obj)):
            raise Undecided('store of columns')
        if isinstance(v, Ser):
            d = dict(zip(v.index.vals, v.vals))
            vs = [d.get(i, NAN) for i in self.index.vals]
        elif isinstance(v, (list, tuple, Arr, Ix)):
            vs = seq(v)
            if len(vs) != len(self.index):
                raise Raised('ValueError', 'ValueError')
        else:
            vs = [v] * len(self.index)
        if k in self.columns.vals:
            j = self.columns.vals.index(k)
            for r, x in zip(self.rows, vs):
                r[j] = x
        else:
            self.columns = Ix([*self.columns.vals, k], self.columns.names)
            for r, x in zip(self.rows, vs):
                r.append(x)

    def m_to_numpy(self, **_kw):
        return taken(Arr((len(self.index), len(self.columns)), [x for r in self.rows for x in r]))

    def m_transpose(self):
        return self.a_T

    def m_copy(self, **_kw):
        return Frame(self.index, self.columns, self.rows)

    def m_astype(self, t, **_kw):
        if isinstance(t, dict):
            out = self.m_copy()
            for c, k in t.items():
                if c not in self.columns.vals:
                    raise Raised('KeyError', 'KeyError')
                out.put(c, arr(seq(self.get(c).m_astype(k))))
            return out
        return self.map(caster(t))

    def m_sort_index(self, axis=0, ascending=True, level=None, sort_remaining=True, **kw):
        if level is not None and axis in (0, 'index'):
            lv = [self.index.level(x) for x in (level if isinstance(level, (list, tuple)) else [level])]
            lv += [i for i in range(len(self.index.names)) if i not in lv and sort_remaining]
            if kw or not sort_remaining or ascending not in (True, False):
                raise Undecided('sort')
            o = sorted(range(len(self.index)), key=lambda i: [self.index.vals[i][x] if self.index.multi else self.index.vals[i] for x in lv], reverse=not ascending)
            return Frame(self.index.take(o), self.columns, [self.rows[i] for i in o])
        if level is not None or any(k not in ('inplace', 'kind') or v for k, v in kw.items()):
            raise Undecided('sort')
        if axis in (1, 'columns'):
            return self.a_T.m_sort_index(ascending=ascending).a_T
        o = sorted(range(len(self.index)), key=lambda i: self.index.vals[i], reverse=not ascending)
        return Frame(self.index.take(o), self.columns, [self.rows[i] for i in o])

    def m_sort_values(self, by=None, ascending=True, **kw):
        if kw:
            raise Undecided('sort')
        bs = by if isinstance(by, (list, tuple)) else [by]
        js = [self.columns.vals.index(b) for b in bs]
        o = sorted(range(len(self.index)), key=lambda i: tuple(self.rows[i][j] for j in js), reverse=not ascending)
        return Frame(self.index.take(o), self.columns, [self.rows[i] for i in o])

    def m_reindex(self, labels=None, index=None, columns=None, axis=0, fill_value=NAN):
        if labels is not None:
            if axis in (1, 'columns'):
                columns = labels
            else:
                index = labels
        out = self
        if index is not None:
            if len(set(self.index.vals)) != len(self.index):
                raise Raised('ValueError', 'ValueError')
            d = dict(zip(self.index.vals, self.rows))
            out = Frame(index if isinstance(index, Ix) else Ix(seq(index), self.index.names if not self.index.multi else None), self.columns, [d.get(k, [fill_value] * len(self.columns)) for k in seq(index)])
        if columns is not None:
            out = out.a_T.m_reindex(index=columns, fill_value=fill_value).a_T
        return out

    def m_reorder_levels(self, order, axis=0):
        if axis in (1, 'columns'):
            return self.a_T.m_reorder_levels(order).a_T
        ls = [self.index.level(x) for x in order]
        return Frame(Ix([tuple(v[i] for i in ls) for v in self.index.vals], [self.index.names[i] for i in ls]), self.columns, self.rows)

    def m_droplevel(self, lv, axis=0):
        if axis in (1, 'columns'):
            return self.a_T.m_droplevel(lv).a_T
        return Frame(self.index.m_droplevel(lv), self.columns, self.rows)

    def m_xs(self, key, axis=0, level=None):
        if axis in (1, 'columns'):
            r = self.a_T.m_xs(key, level=level)
            return r.a_T if isinstance(r, Frame) else r
        if level is None:
            return Loc(self, 'loc').get(key)
        i = self.index.level(level)
        pos = [p for p, v in enumerate(self.index.vals) if v[i] == key]
        if not pos:
            raise Raised('KeyError', 'KeyError')
        return Frame(self.index.take(pos).drop([i]), self.columns, [self.rows[p] for p in pos])

    def m_mask(self, cond, other=NAN, **kw):
        return self.masked(cond, other, True, **kw)

    def m_where(self, cond, other=NAN, **kw):
        return self.masked(cond, other, False, **kw)

    def masked(self, cond, other, when, axis=None, **kw):
        plain(kw)
        if isinstance(cond, Ser) and axis is not None:
            cond = self.along(cond, lambda _x, y: y, axis)
        if isinstance(other, Ser) and axis is not None:
            other = self.along(other, lambda _x, y: y, axis)
        if isinstance(other, (Frame, Arr)):
            if isinstance(other, Frame) and (other.index.vals != self.index.vals or other.columns.vals != self.columns.vals) or other.a_shape != self.a_shape:
                raise Undecided('alignment')
            c = cond.m_to_numpy() if isinstance(cond, Frame) else cond
            if isinstance(cond, Frame) and (cond.index.vals != self.index.vals or cond.columns.vals != self.columns.vals) or not isinstance(c, Arr) or c.shape != self.a_shape:
                raise Undecided('alignment')
            o = iter(other.flat if isinstance(other, Arr) else other.m_to_numpy().flat)
            b = iter(c.flat)
            return Frame(self.index, self.columns, [[(y if bool(z) == when else x) for x, y, z in ((x, next(o), next(b)) for x in r)] for r in self.rows])
        if isinstance(other, Obj):
            raise Undecided('mask')
        c = cond.m_to_numpy() if isinstance(cond, Frame) else cond
        if isinstance(cond, Frame) and (cond.index.vals != self.index.vals or cond.columns.vals != self.columns.vals):
            raise Undecided('alignment')
        if not isinstance(c, Arr) or c.shape != self.a_shape:
            raise Undecided('mask')
        it = iter(c.flat)
        return Frame(self.index, self.columns, [[other if next(it) == when else x for x in r] for r in self.rows])

    def m_mul(self, o, axis=1):
        return self.along(o, times, axis) if isinstance(o, (Ser, Ix, Arr, list)) and not (isinstance(o, Arr) and len(o.shape) > 1) else self.zip(o, times)

    m_multiply = m_mul

    def m_add(self, o, axis=1, fill_value=None):
        if fill_value is not None and isinstance(o, Frame):
            ix = list(dict.fromkeys([*self.index.vals, *o.index.vals]))
            cs = list(dict.fromkeys([*self.columns.vals, *o.columns.vals]))
            a, b = (x.m_reindex(index=Ix(ix, self.index.names), columns=Ix(cs, self.columns.names)) for x in (self, o))
            return a.m_fillna(fill_value).zip(b.m_fillna(fill_value), lambda x, y: x + y)
        return self.along(o, lambda x, y: x + y, axis) if isinstance(o, Ser) else self.zip(o, lambda x, y: x + y)

    def m_fillna(self, v, **kw):
        plain(kw)
        if isinstance(v, Ser):
            v = dict(zip(v.index.vals, v.vals))
        if isinstance(v, dict):
            return Frame(self.index, self.columns, [[v.get(c, x) if isnan(x) else x for c, x in zip(self.columns.vals, r)] for r in self.rows])
        if isinstance(v, Obj):
            raise Undecided('fillna')
        return self.map(lambda x: v if isnan(x) else x)

    def m_to_dict(self, orient='dict', **kw):
        if kw or orient not in ('dict', 'series', 'list', 'records', 'index') or len(set(self.columns.vals)) != len(self.columns):
            raise Undecided('to_dict')
        if orient == 'records':
            return [dict(zip(self.columns.vals, r)) for r in self.rows]
        if orient == 'index':
            if len(set(self.index.vals)) != len(self.index):
                raise Raised('ValueError', 'ValueError')
            return {k: dict(zip(self.columns.vals, r)) for k, r in zip(self.index.vals, self.rows)}
        cols = {c: Ser(self.index, [r[j] for r in self.rows], c) for j, c in enumerate(self.columns.vals)}
        return cols if orient == 'series' else {c: list(x.vals) if orient == 'list' else x.m_to_dict() for c, x in cols.items()}

    def m_isin(self, vs):
        vs = seq(vs)
        return self.map(lambda x: x in vs)

    def m_iterrows(self):
        return [(k, Ser(self.columns, r, k)) for k, r in zip(self.index.vals, self.rows)]

    def m_items(self):
        return [(c, self.get(c)) for c in self.columns.vals]

    def m_rename_axis(self, names=None, axis=0, **kw):
        if names is None and kw and set(kw) <= {'index', 'columns'}:
            ix, cx = (Ix(old.vals, (list(kw[k]) if isinstance(kw[k], (list, tuple)) else [kw[k]]) if k in kw else old.names) for k, old in (('index', self.index), ('columns', self.columns)))
            return Frame(ix, cx, self.rows)
        if kw or isinstance(names, dict):
            raise Undecided('rename_axis')
        ix = Ix(self.index.vals, [names] if not isinstance(names, (list, tuple)) else names)
        return Frame(ix, self.columns, self.rows) if axis in (0, 'index') else Frame(self.index, Ix(self.columns.vals, ix.names), self.rows)

    def m_drop(self, labels=None, axis=0, columns=None, index=None, inplace=False, errors='raise', level=None):
        if inplace:
            new = self.m_drop(labels, axis, columns, index, errors=errors, level=level)
            self.index, self.columns, self.rows = new.index, new.columns, new.rows
            return None
        if columns is None and axis in (1, 'columns'):
            columns = labels
        elif index is None and columns is None:
            index = labels
        if columns is not None:
            vs = columns if isinstance(columns, (list, Ix, Arr)) else [columns]
            if level is not None:
                at = self.columns.lvals(level)
                if errors != 'ignore' and any(v not in at for v in seq(vs)):
                    raise Raised('KeyError', 'KeyError')
                keep = [j for j, c in enumerate(at) if c not in seq(vs)]
                return self.sub(list(range(len(self.index))), self.index, keep, self.columns.take(keep))
            if self.columns.multi:
                vs = [c for v in seq(vs) for c in ([v] if isinstance(v, tuple) and len(v) == len(self.columns.names) else [c for c in self.columns.vals if c[: len(v) if isinstance(v, tuple) else 1] == (v if isinstance(v, tuple) else (v,))] or [v])]
            if errors != 'ignore' and any(c not in self.columns.vals for c in seq(vs)):
                raise Undecided('drop') if self.columns.multi else Raised('KeyError', 'KeyError')
            keep = [j for j, c in enumerate(self.columns.vals) if c not in seq(vs)]
            return self.sub(list(range(len(self.index))), self.index, keep, self.columns.take(keep))
        return self.a_T.m_drop(columns=index, errors=errors, level=level).a_T

    def m_set_axis(self, labels, axis=0, **kw):
        if kw.get('inplace'):
            raise Undecided('set_axis')
        old = self.columns if axis in (1, 'columns') else self.index
        ix = labels if isinstance(labels, Ix) else Ix(seq(labels))
        if len(ix) != len(old):
            raise Raised('ValueError', 'ValueError')
        return Frame(self.index, ix, self.rows) if axis in (1, 'columns') else Frame(ix, self.columns, self.rows)

    def m_set_index(self, keys, **kw):
        if isinstance(keys, str) or isinstance(keys, list) and all(isinstance(k, str) for k in keys):
            plain(kw, 'append', 'drop')
            ks = [keys] if isinstance(keys, str) else keys
            vals, names = [seq(self.get(k)) for k in ks], ks
            rest = [i for i, c in enumerate(self.columns.vals) if c not in ks or not kw.get('drop', True)]
            if kw.get('append'):
                vals, names = [*(self.index.lvals(i) for i in range(len(self.index.names))), *vals], [*self.index.names, *ks]
            ix = Ix(list(zip(*vals)) if len(vals) > 1 else vals[0], names)
            return Frame(ix, self.columns.take(rest), [[r[i] for i in rest] for r in self.rows])
        if kw.get('inplace') or isinstance(keys, (str, int)) or not isinstance(keys, (Ix, Ser, Arr)):
            raise Undecided('set_index')
        ix = keys if isinstance(keys, Ix) else Ix(seq(keys))
        if len(ix) != len(self.index):
            raise Raised('ValueError', 'ValueError')
        return Frame(ix, self.columns, self.rows)

    def m_rename(self, mapper=None, index=None, columns=None, axis=0, **kw):
        if kw:
            raise Undecided('rename')
        if mapper is not None:
            index, columns = (None, mapper) if axis in (1, 'columns') else (mapper, None)

        def new(ix, f):
            if f is None:
                return ix
            if isinstance(f, Const) and not ix.multi:
                return ix.m_astype(f)
            if isinstance(f, dict) and not ix.multi:
                return Ix([f.get(x, x) for x in ix.vals], ix.names)
            raise Undecided('rename')

        return Frame(new(self.index, index), new(self.columns, columns), self.rows)

    def m_groupby(self, by=None, level=None, axis=0, **kw):
        if axis in (1, 'columns'):
            raise Undecided('groups of columns')
        return Groups(self, self.groups(by, level, kw))

    def groups(self, by, level, kw):
        if any(k not in ('sort', 'as_index', 'group_keys', 'observed', 'dropna') for k in kw) or kw.get('as_index') is False:
            raise Undecided('groupby')
        if level is not None:
            ls = level if isinstance(level, (list, tuple)) else [level]
            vals = [self.index.lvals(lv) for lv in ls]
            names = [self.index.names[self.index.level(lv)] for lv in ls]
        else:
            bs = by if isinstance(by, (list, tuple)) and not (by and len(by) == len(self.index) and by[0] not in self.columns.vals) else [by]
            vals, names = [], []
            for b in bs:
                if isinstance(b, (Ix, Ser, Arr, list)):
                    if isinstance(b, Ix) and b.multi:
                        vals += [b.lvals(i) for i in range(len(b.names))]
                        names += b.names
                        continue
                    v = seq(b)
                    if isinstance(b, Ser) and b.index.vals != self.index.vals:
                        raise Undecided('alignment')
                    names.append(b.names[0] if isinstance(b, Ix) else getattr(b, 'name', None))
                else:
                    v = seq(self.get(b)) if b in self.columns.vals else self.index.lvals(b)
                    names.append(b)
                if len(v) != len(self.index):
                    raise Raised('ValueError', 'ValueError')
                vals.append(v)
        keys = [t if len(vals) > 1 else t[0] for t in zip(*vals)]
        out = {}
        for i, k in enumerate(keys):
            out.setdefault(k, []).append(i)
        ks = sorted(out) if kw.get('sort', True) else list(out)
        return Ix(ks, names), [out[k] for k in ks]

    def reduce(self, f, axis):
        if axis in (1, 'columns'):
            return Ser(self.index, [f(r) for r in self.rows])
        return Ser(self.columns, [f([r[j] for r in self.rows]) for j in range(len(self.columns))])

    def m_sum(self, axis=0, **kw):
        plain(kw, 'min_count')
        return self.reduce(least(total, kw), axis)

    def m_max(self, axis=0, **kw):
        plain(kw)
        return self.reduce(REDUCE['max'], axis)

    def m_min(self, axis=0, **kw):
        plain(kw)
        return self.reduce(REDUCE['min'], axis)

    def m_idxmax(self, axis=0, **_kw):
        if axis in (1, 'columns'):
            return Ser(self.index, [self.columns.vals[r.index(max(nums(r)))] for r in self.rows])
        return self.a_T.m_idxmax(axis=1)

    def m_reset_index(self, drop=False, **kw):
        if kw:
            raise Undecided('reset_index')
        if not drop:
            names = [('index' if len(self.index.names) == 1 else f'level_{i}') if n is None else n for i, n in enumerate(self.index.names)]
            if self.columns.multi:
                names = [(n, *[''] * (len(self.columns.names) - 1)) for n in names]
            if any(n in self.columns.vals for n in names):
                raise Raised('ValueError', 'ValueError')
            rows = [[*(v if self.index.multi else (v,)), *r] for v, r in zip(self.index.vals, self.rows)]
            return Frame(Ix(range(len(rows))), Ix([*names, *self.columns.vals], self.columns.names), rows)
        return Frame(Ix(range(len(self.index))), self.columns, self.rows)

    def m_itertuples(self, index=True, name='Pandas'):
        if not index or self.columns.multi:
            raise Undecided('itertuples')
        return [Row(i, self.columns.vals, r) for i, r in zip(self.index.vals, self.rows)]


class Row(Obj):
    """A named tuple of a table."""

    def __init__(self, index, columns, vals):
        names = [c if isinstance(c, str) and c.isidentifier() and not c.startswith('_') and not keyword.iskeyword(c) else f'_{i + 1}' for i, c in enumerate(columns)]
        self.fields = {'Index': index, **dict(zip(names, vals))}
        for k, v in self.fields.items():
            setattr(self, 'a_' + k, v)
        self.a__fields = tuple(self.fields)

    def m__asdict(self):
        return dict(self.fields)

    def get(self, k):
        return list(self.fields.values())[k] if isinstance(k, int) else tuple(list(self.fields.values())[k])

    def __iter__(self):
        return iter(self.fields.values())

    def __len__(self):
        return len(self.fields)


def times(x, y):
    for a, b in ((x, y), (y, x)):
        if isinstance(a, (int, float)) and a == 1:
            return b
    if isinstance(x, Sym) or isinstance(y, Sym):
        return Sym('mul', (x, y))
    return x * y


REDUCE = {
    'sum': total,
    'max': lambda v: max((x for x in v if not isnan(x)), default=NAN),
    'min': lambda v: min((x for x in v if not isnan(x)), default=NAN),
    'first': lambda v: next((x for x in v if not isnan(x)), NAN),
    'last': lambda v: next((x for x in reversed(v) if not isnan(x)), NAN),
    'count': lambda v: sum(not isnan(x) for x in v),
    'mean': lambda v: total(v) / len(nums(v)) if nums(v) else NAN,
    'any': any, 'all': all,
    'nunique': lambda v: len({x for x in v if not isnan(x)}),
    'size': len,
}


class Groups(Obj):
    def __init__(self, table, groups, ser=None, cols=None):
        self.table, (self.keys, self.pos), self.ser, self.cols = table, groups, ser, cols

    def part(self, p):
        t = self.table.sub(p, self.table.index.take(p), list(range(len(self.table.columns))), self.table.columns)
        return t.get('_v') if self.ser is not None else t

    def __iter__(self):
        for k, p in zip(self.keys.vals, self.pos):
            yield k, self.part(p)

    def reduce(self, f):
        rows = [[f([self.table.rows[i][j] for i in p]) for j in range(len(self.table.columns))] for p in self.pos]
        out = Frame(self.keys, self.table.columns, rows)
        return Ser(out.index, [r[0] for r in out.rows], self.ser.name) if self.ser is not None else out

    def get(self, k):
        if isinstance(k, list):
            return Groups(self.table.get(k), (self.keys, self.pos))
        s = self.table.get(k)
        return Groups(s.m_to_frame('_v'), (self.keys, self.pos), s)

    def how(self, name, kw):
        plain(kw, 'min_count')
        n = kw.get('min_count', -1)
        f = REDUCE[name]
        if n > 0 and not (n == 1 and name in ('first', 'last', 'max', 'min')):
            if name != 'sum':
                raise Undecided('min_count')
            f = least(f, kw)
        return self.reduce(f)

    def m_sum(self, **kw):
        return self.how('sum', kw)

    def m_max(self, **kw):
        return self.how('max', kw)

    def m_min(self, **kw):
        return self.how('min', kw)

    def m_first(self, skipna=True, **kw):
        return self.how('first', kw) if skipna else self.reduce(lambda v: v[0])

    def m_last(self, skipna=True, **kw):
        return self.how('last', kw) if skipna else self.reduce(lambda v: v[-1])

    def m_count(self):
        return self.reduce(REDUCE['count'])

    def m_mean(self, **kw):
        return self.how('mean', kw)

    def m_nunique(self, **kw):
        return self.how('nunique', kw)

    def m_any(self, **kw):
        return self.how('any', kw)

    def m_all(self, **kw):
        return self.how('all', kw)

    def m_size(self):
        return Ser(self.keys, [len(p) for p in self.pos], self.ser.name if self.ser is not None else None)

    def m_cumcount(self, ascending=True):
        out = [0] * len(self.table.rows)
        for p in self.pos:
            for j, i in enumerate(p if ascending else reversed(p)):
                out[i] = j
        return Ser(self.table.index, out)

    def m_transform(self, f, **kw):
        if kw or f not in REDUCE:
            raise Undecided('transform')
        out = [None] * len(self.table.rows)
        for p in self.pos:
            v = [REDUCE[f]([self.table.rows[i][j] for i in p]) for j in range(len(self.table.columns))]
            for i in p:
                out[i] = v
        t = Frame(self.table.index, self.table.columns, out)
        return Ser(t.index, [r[0] for r in t.rows], self.ser.name) if self.ser is not None else t

    def m_unique(self):
        if self.ser is None:
            raise Undecided('unique')
        return Ser(self.keys, [self.part(p).m_unique() for p in self.pos], self.ser.name)

    def m_get_group(self, k):
        for q, p in zip(self.keys.vals, self.pos):
            if q == k:
                return self.part(p)
        raise Raised('KeyError', 'KeyError')

    @property
    def a_ngroups(self):
        return len(self.pos)


def dataframe(data=None, index=None, columns=None, **_kw):
    if isinstance(data, (type({}.keys()), type({}.values()))):
        data = list(data)
    if isinstance(data, Ser) and index is None and columns is None:
        return Frame(data.index, Ix([data.name if data.name is not None else 0]), [[v] for v in data.vals])
    if isinstance(data, Frame):
        out = data.m_copy()
        return out.m_reindex(index=index, columns=columns) if index is not None or columns is not None else out
    cols = None if columns is None else columns if isinstance(columns, Ix) else Ix(seq(columns))
    if isinstance(data, dict):
        ks = list(data) if cols is None else cols.vals
        vals = [data.get(k) for k in ks]
        if index is None:
            s = next((v for v in vals if isinstance(v, Ser)), None)
            n = next((len(seq(v)) for v in vals if isinstance(v, (list, tuple, Arr, Ser, Ix))), None)
            if n is None:
                raise Undecided('table')
            index = s.index if s is not None else range(n)
            if s is not None and any(isinstance(v, Ser) and v.index.vals != s.index.vals for v in vals):
                labels = list(dict.fromkeys(x for v in vals if isinstance(v, Ser) for x in v.index.vals))
                try:
                    index = Ix(sorted(labels), s.index.names)
                except TypeError as exc:
                    raise Undecided('labels that cannot be sorted') from exc
        ix = index if isinstance(index, Ix) else Ix(seq(index))
        cc = []
        for v in vals:
            if isinstance(v, Ser):
                d = dict(zip(v.index.vals, v.vals))
                cc.append([d.get(i, NAN) for i in ix.vals])
            elif isinstance(v, (list, tuple, Arr, Ix)):
                cc.append(seq(v))
            else:
                cc.append([v] * len(ix))
        return Frame(ix, cols if cols is not None else Ix(ks), [[c[i] for c in cc] for i in range(len(ix))])
    if data is None:
        ix = Ix([]) if index is None else index if isinstance(index, Ix) else Ix(seq(index))
        cs = Ix([]) if cols is None else cols
        return Frame(ix, cs, [[NAN] * len(cs) for _ in ix.vals])
    if isinstance(data, (int, float, str)) and index is not None and cols is not None:
        ix = index if isinstance(index, Ix) else Ix(seq(index))
        return Frame(ix, cols, [[data] * len(cols) for _ in ix.vals])
    a = arr(data)
    if len(a.shape) == 1:
        a = a.m_reshape(-1, 1)
    ix = Ix(range(a.shape[0])) if index is None else index if isinstance(index, Ix) else Ix(seq(index))
    return Frame(ix, cols if cols is not None else Ix(range(a.shape[1])), a.m_tolist())


def series(data=None, index=None, name=None, dtype=None, **_kw):
    if dtype is not None:
        out = series(data, index, name)
        return out if data is None and str(getattr(dtype, 'v', dtype)).endswith('object') else out.m_astype(dtype)
    if isinstance(data, dict):
        s = Ser(Ix(list(data)), list(data.values()), name)
        return s.m_reindex(index) if index is not None else s
    if isinstance(data, Ser) and index is None:
        return data.m_copy()
    if isinstance(data, Ser):
        return data.m_reindex(index)
    if data is None:
        vs = [NAN] * len(seq(index)) if index is not None else []
    else:
        vs = [data] * len(seq(index)) if isinstance(data, (int, float, str)) else seq(data)
    return Ser(index if isinstance(index, Ix) else Ix(seq(index) if index is not None else range(len(vs))), vs, name)


def lab(v):
    return v if isinstance(v, tuple) else (v,)


def concat(objs, axis=0, keys=None, names=None, join='outer', ignore_index=False, sort=False, **_kw):
    if isinstance(objs, dict):
        keys = list(objs) if keys is None else keys
        objs = [objs[k] for k in keys]
    objs = list(objs)
    ks = None if keys is None else seq(keys)
    if ks is not None:
        n = min(len(ks), len(objs))
        if len(ks) != len(objs):
            raise Undecided('keys')
        objs, ks = objs[:n], ks[:n]
    if not objs:
        raise Raised('ValueError', 'ValueError')
    if any(isinstance(o, Ser) for o in objs):
        if axis in (1, 'columns'):
            if ks is not None and not all(isinstance(o, Ser) for o in objs):
                raise Undecided('concat')
            if ks is not None:
                t = concat([o.m_to_frame().a_T for o in objs]) if objs[0].index.vals else None
                if t is None:
                    raise Undecided('concat')
                given = keys if isinstance(keys, Ix) else None
                nm = given.names if given else list(names) if names else None
                return Frame(Ix(ks, nm), t.columns, t.rows).a_T
            objs = [o.m_to_frame() if isinstance(o, Ser) else o for o in objs]
        elif all(isinstance(o, Ser) for o in objs):
            ix = [(*lab(k), *lab(v)) for k, o in zip(ks, objs) for v in o.index.vals] if ks else [v for o in objs for v in o.index.vals]
            return Ser(Ix(ix, objs[0].index.names if not ks else None), [v for o in objs for v in o.vals])
        else:
            raise Undecided('concat')
    if axis in (1, 'columns'):
        return concat([o.a_T for o in objs], 0, ks, names, join).a_T
    if any(not isinstance(o, Frame) for o in objs) or join != 'outer' or sort:
        raise Undecided('concat')
    if ks is None:
        objs = [o for o in objs if o.columns.vals or o.index.vals] or objs[:1]
    cols = objs[0].columns
    allc = list(dict.fromkeys(c for o in objs for c in o.columns.vals))
    if any(o.columns.vals != cols.vals for o in objs):
        cols = Ix(allc, cols.names)
        objs = [o.m_reindex(columns=cols) for o in objs]
    ix = []
    for i, o in enumerate(objs):
        ix += [(*lab(ks[i]), *lab(v)) if ks else v for v in o.index.vals]
    nm = objs[0].index.names
    if ks:
        more = len(lab(ks[0]))
        nm = [*((list(names) + [None] * more)[:more] if names else [None] * more), *nm] if not (names and len(names) > more) else list(names)
    rows = [r for o in objs for r in o.rows]
    return Frame(Ix(range(len(rows))) if ignore_index else Ix(ix, nm), cols, rows)


def vstack(xs):
    rows = []
    width = None
    for x in xs:
        a = arr(x)
        if len(a.shape) == 1:
            a = Arr((1, *a.shape), a.flat)
        if width not in (None, a.shape[1:]):
            raise Raised('ValueError', 'ValueError')
        width = a.shape[1:]
        rows += list(a)
    return arr(rows)


def tile(a, reps):
    a = arr(a)
    if isinstance(reps, int):
        reps = (reps,)
    reps = tuple(reps)
    if len(a.shape) == 1 and len(reps) == 1:
        return Arr((len(a.flat) * reps[0],), a.flat * reps[0])
    if len(a.shape) == 1 and len(reps) == 2:
        return Arr((reps[0], len(a.flat) * reps[1]), a.flat * reps[1] * reps[0])
    if len(a.shape) == 2 and len(reps) == 2:
        rows = [r.flat * reps[1] for r in a] * reps[0]
        return arr(rows)
    raise Undecided('tile')


def resize(a, n):
    a = arr(a)
    if isinstance(n, int):
        n = (n,)
    k = math.prod(n)
    return Arr(n, [a.flat[i % len(a.flat)] for i in range(k)])


def unique(a):
    return Arr((len(set(arr(a).flat)),), sorted(set(arr(a).flat)))


def moveaxis(a, s, d):
    a = arr(a)
    n = len(a.shape)
    axes = [i for i in range(n) if i != s % n]
    axes.insert(d % n, s % n)
    return a.m_transpose(*axes)


def take(a, idx, axis=None, **kw):
    a = arr(a)
    if kw.get('mode') == 'wrap':
        n = a.shape[axis or 0]
        idx = [i % n for i in seq(idx)]
    return a.get((slice(None),) * (axis or 0) + (list(seq(idx)),))


def full(shape, v):
    if isinstance(v, Obj):
        raise Undecided('full')
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    return Arr(shape, [v] * math.prod(shape))


def coords(a):
    a = arr(a)
    out = []
    for i, x in enumerate(a.flat):
        if x and not isnan(x):
            k = []
            for n in reversed(a.shape):
                i, r = divmod(i, n)
                k.append(r)
            out.append(k[::-1])
    return out


def argwhere(a):
    ks = coords(a)
    n = len(arr(a).shape)
    return Arr((len(ks), n), [x for k in ks for x in k])


def nonzero(a):
    ks = coords(a)
    return tuple(Arr((len(ks),), [k[d] for k in ks]) for d in range(len(arr(a).shape)))


def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    c = arr(cond)
    x, y = xy
    pick = lambda v, i: v.flat[i] if isinstance(v, Arr) and v.shape == c.shape else v if not isinstance(v, Obj) else None  # noqa: E731
    x, y = (arr(v) if isinstance(v, (Obj, list)) else v for v in (x, y))
    if any(isinstance(v, Arr) and v.shape != c.shape for v in (x, y)):
        raise Undecided('where')
    return Arr(c.shape, [pick(x, i) if t else pick(y, i) for i, t in enumerate(c.flat)])


def column_stack(xs):
    cols = [arr(x) for x in xs]
    if any(len(c.shape) != 1 for c in cols):
        raise Undecided('column_stack')
    if len({c.shape for c in cols}) > 1:
        raise Raised('ValueError', 'ValueError')
    return Arr((cols[0].shape[0], len(cols)), [c.flat[i] for i in range(cols[0].shape[0]) for c in cols])


def typed(dtype, x):
    t = str(dtype.v if isinstance(dtype, Const) else getattr(dtype, '__name__', dtype)).rsplit('.', 1)[-1]
    return bool(x) if t.startswith('bool') else x if t.startswith(('int', 'uint')) else float(x)


def each_value(f):
    """A function of numbers, for the values of arrays and tables."""
    def g(x):
        if isinstance(x, bool) or isinstance(x, (int, float)):
            try:
                return NAN if isnan(x) else f(x)
            except (ValueError, OverflowError, ZeroDivisionError) as exc:
                raise Undecided('value outside the domain') from exc
        raise Undecided('function of something else than a number')

    def h(v, **kw):
        if kw:
            raise Undecided('function of an array with settings')
        if isinstance(v, (list, tuple)):
            v = arr(v)
        return v.map(g) if isinstance(v, Obj) else g(v)
    return h


def nan_to_num(v, nan=0.0, **kw):
    if kw:
        raise Undecided('nan_to_num')
    f = lambda x: nan if isnan(x) else x
    if isinstance(v, (list, tuple)):
        v = arr(v)
    return v.map(f) if isinstance(v, Obj) else f(v)


def interp(x, xp, fp, left=None, right=None, **kw):
    """Linear interpolation, constant outside the points unless it is said otherwise."""
    if kw:
        raise Undecided('interp')
    xs, ys = list(seq(xp)), list(seq(fp))
    if len(xs) != len(ys) or not xs:
        raise Raised('ValueError', 'ValueError')
    if any(a >= b for a, b in zip(xs, xs[1:])):
        raise Undecided('points of an interpolation that are not in order')

    def at(v):
        if isnan(v):
            return NAN
        if v < xs[0]:
            return ys[0] if left is None else left
        if v > xs[-1]:
            return ys[-1] if right is None else right
        for i in range(len(xs) - 1):
            if xs[i] <= v < xs[i + 1]:
                return ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])
        return ys[-1]
    if isinstance(x, (int, float)):
        return at(x)
    return arr(x).map(at)


def repeats(vs, keep):
    if keep not in ('first', 'last', False):
        raise Raised('ValueError', 'ValueError')
    if any(isnan(x) for v in vs for x in (v if isinstance(v, tuple) else (v,))):
        raise Undecided('repeated missing values')
    return [v in vs[:i] if keep == 'first' else v in vs[i + 1:] if keep == 'last' else vs.count(v) > 1 for i, v in enumerate(vs)]


def cumsum(a, axis=None):
    if isinstance(a, Ser) and axis in (None, 0):
        return a.m_cumsum()
    v = arr(a)
    if len(v.shape) != 1 or axis not in (None, 0) or any(isnan(x) for x in v.flat):
        raise Undecided('cumsum')
    return Arr(v.shape, list(itertools.accumulate(v.flat)))


def deviation(a, ddof):
    """Standard deviation of the values of a vector."""
    v = list(a.flat)
    if len(a.shape) != 1 or len(v) <= ddof:
        raise Undecided('standard deviation')
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / (len(v) - ddof))


class Strings(Obj):
    """The texts of a vector."""

    def __init__(self, vals, make):
        self.vals, self.make = vals, make

    def each(self, f):
        if not all(isinstance(v, str) for v in self.vals):
            raise Undecided('texts')
        return self.make([f(v) for v in self.vals])

    def get(self, k):
        if not isinstance(k, (int, slice)):
            raise Undecided('part of texts')
        return self.each(lambda v: v[k])

    def m_slice(self, start=None, stop=None, step=None):
        return self.each(lambda v: v[slice(start, stop, step)])

    @property
    def a_str(self):
        return self

    def m_isnumeric(self):
        return self.each(str.isnumeric)

    def m_isdigit(self):
        return self.each(str.isdigit)

    def m_isdecimal(self):
        return self.each(str.isdecimal)

    def m_lower(self):
        return self.each(str.lower)

    def m_upper(self):
        return self.each(str.upper)

    def m_strip(self):
        return self.each(str.strip)

    def m_startswith(self, t):
        return self.each(lambda v: v.startswith(t))

    def m_endswith(self, t):
        return self.each(lambda v: v.endswith(t))


EXT = {
    'numpy.interp': interp,
    'numpy.cumsum': cumsum,
    'numpy.sqrt': each_value(math.sqrt),
    'numpy.exp': each_value(math.exp),
    'numpy.log': each_value(math.log),
    'numpy.square': each_value(lambda x: x * x),
    'numpy.abs': each_value(abs),
    'numpy.absolute': each_value(abs),
    'numpy.fabs': each_value(abs),
    'numpy.hypot': lambda a, b: arr(a).zip(b, lambda x, y: NAN if isnan(x) or isnan(y) else math.hypot(x, y)),
    'numpy.nan_to_num': nan_to_num,
    'numpy.vstack': vstack,
    'numpy.row_stack': vstack,
    'numpy.array': lambda a, dtype=None, **_kw: arr(a) if dtype is None else arr(a).m_astype(dtype),
    'numpy.asarray': lambda a, dtype=None, **_kw: arr(a) if dtype is None else arr(a).m_astype(dtype),
    'numpy.arange': lambda *a: Arr((len(range(*a)),), range(*a)),
    'numpy.zeros': lambda s, dtype=None, **_kw: full(s, typed(dtype, 0)),
    'numpy.ones': lambda s, dtype=None, **_kw: full(s, typed(dtype, 1)),
    'numpy.full': lambda shape, fill_value, dtype=None, **_kw: full(shape, fill_value),
    'numpy.zeros_like': lambda a, **_kw: full(arr(a).shape, 0.0),
    'numpy.ones_like': lambda a, **_kw: full(arr(a).shape, 1.0),
    'numpy.full_like': lambda a, fill_value, **_kw: full(arr(a).shape, fill_value),
    'numpy.isnan': lambda v: v.map(isnan) if isinstance(v, Obj) else isnan(v),
    'pandas.isnull': lambda v: v.map(isnan) if isinstance(v, Obj) else isnan(v),
    'pandas.notna': lambda v: v.map(lambda x: not isnan(x)) if isinstance(v, Obj) else not isnan(v),
    'numpy.transpose': lambda a, axes=None: arr(a).m_transpose(*(axes or ())),
    'numpy.reshape': lambda a, s, **kw: arr(a).m_reshape(s, **kw),
    'numpy.swapaxes': lambda a, x, y: arr(a).m_swapaxes(x, y),
    'numpy.moveaxis': moveaxis,
    'numpy.tile': tile,
    'numpy.take': take,
    'numpy.resize': resize,
    'numpy.unique': unique,
    'numpy.ravel': lambda a: arr(a).m_ravel(),
    'numpy.sort': lambda a: arr(sorted(seq(a))),
    'numpy.minimum': lambda a, b: arr(a).zip(b, min),
    'numpy.maximum': lambda a, b: arr(a).zip(b, max),
    'numpy.argwhere': argwhere,
    'numpy.nonzero': nonzero,
    'numpy.flatnonzero': lambda a: nonzero(arr(a).m_ravel())[0],
    'numpy.where': where,
    'numpy.column_stack': column_stack,
    'numpy.logical_and': lambda a, b: arr(a).zip(b, lambda x, y: bool(x) and bool(y)),
    'numpy.logical_or': lambda a, b: arr(a).zip(b, lambda x, y: bool(x) or bool(y)),
    'numpy.logical_not': lambda a: arr(a).map(lambda x: not x),
    'numpy.any': lambda a, axis=None, **kw: arr(a).m_any(axis, **kw),
    'numpy.all': lambda a, axis=None, **kw: arr(a).m_all(axis, **kw),
    'numpy.sum': lambda a, axis=None, **kw: arr(a).m_sum(axis, **kw),
    'numpy.max': lambda a, axis=None, **kw: arr(a).m_max(axis, **kw),
    'numpy.min': lambda a, axis=None, **kw: arr(a).m_min(axis, **kw),
    'numpy.std': lambda a, ddof=0: deviation(arr(a), ddof),
    'numpy.var': lambda a, ddof=0: deviation(arr(a), ddof) ** 2,
    'numpy.clip': lambda a, lo, hi: arr(a).map(lambda x: min(max(x, lo), hi)),
    'numpy.mod': lambda a, n: arr(a).map(lambda x: x % n),
    'numpy.remainder': lambda a, n: arr(a).map(lambda x: x % n),
    'numpy.repeat': lambda a, n, axis=None: arr(a).m_repeat(n, axis),
    'numpy.isin': lambda a, b: arr(a).map(lambda x: x in seq(b)),
    'pandas.DataFrame': dataframe,
    'pandas.Series': series,
    'pandas.concat': concat,
    'pandas.Index': lambda v, **kw: Ix(seq(v), [kw['name']] if 'name' in kw else v.names if isinstance(v, Ix) else None),
    'pandas.MultiIndex.from_frame': lambda v, names=None: Ix([tuple(r) for r in v.rows], names or list(v.columns.vals)),
    'pandas.MultiIndex.from_tuples': lambda v, names=None: Ix([tuple(x) for x in v], names),
    'pandas.MultiIndex.from_product': lambda v, names=None: Ix(list(itertools.product(*[seq(x) for x in v])), names),
    'pandas.MultiIndex.from_arrays': lambda v, names=None: Ix(list(zip(*[seq(x) for x in v])), names),
    'itertools.product': lambda *a, repeat=1: list(itertools.product(*[seq(x) for x in a], repeat=repeat)),
    'pandas.isna': lambda v: v.map(isnan) if isinstance(v, Obj) else isnan(v),
}
def plus(a, b):
    return a or b if isinstance(a, bool) and isinstance(b, bool) else a + b


OPS = {
    '+': plus, '-': lambda a, b: a - b, '*': times, '/': lambda a, b: a / b, '%': lambda a, b: a % b, '//': lambda a, b: a // b,
    '&': lambda a, b: a & b, '|': lambda a, b: a | b, '**': lambda a, b: a**b,
}
CMPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '>': lambda a, b: a > b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b}


def made_before(n, lp):
    """Whether a name refers to an object before the loop."""
    while getattr(n, 'op', None) == 'attr' and n.args[1] in ('loc', 'iloc', 'at', 'iat'):
        n = n.args[0]
    return n in getattr(lp, 'before', ())


class FTrace(Trace):
    """Trace whose values may be labelled tables; `world(tr, node)` models everything else."""

    def __init__(self, ip, world, effect=None, tries=None, attrs=True):
        self.world = world
        self.cached = []
        super().__init__(ip, FTrace.leaf_, effect or (lambda _t, _e: NO), tries, strict=True)

    def run(self):
        try:
            return super().run()
        except (TypeError, AttributeError, LookupError, ArithmeticError, RecursionError) as exc:
            # an operation on values that the model does not have
            raise Undecided(f'{type(exc).__name__}: {exc}') from exc

    def field(self, base, name):
        try:
            o = self.ev(base)
        except (Undecided, Raised):
            return NO
        return getattr(o, 'a_' + str(name), NO) if isinstance(o, Obj) and not isinstance(o, (Frame, Ser, Arr, Ix)) and hasattr(o, 'store') else NO

    def acts(self, events):
        must = getattr(self.world, 'must', ())
        return any(e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.bname(e.node) in must for e in events)

    def leaf_(self, n):  # noqa: C901
        v = self.world(self, n)
        if v is not NO:
            return v
        op = n.op
        if op == 'ext':
            if n.args[0] == 'pandas.IndexSlice':
                return IdxSlice()
            if n.args[0] in ('numpy.inf', 'math.inf', 'numpy.Inf'):
                return math.inf
            if n.args[0] in ('numpy.nan', 'math.nan', 'numpy.NaN'):
                return NAN
            if n.args[0] in ('numpy.float64', 'numpy.int64', 'builtins.int', 'builtins.str', 'builtins.float', 'builtins.bool', 'builtins.object', 'numpy.int32'):
                return Const(n.args[0])
            return NO
        if op == 'rest' and len(n.args) == 3:
            v = list(seq(self.ev(n.args[0])))
            if len(v) < n.args[1] + n.args[2]:
                raise Raised('ValueError', 'ValueError')
            return v[n.args[1]:len(v) - n.args[2]]
        if op == 'slice':
            return slice(*[self.ev(x) for x in n.args])
        if op == 'phi':
            vals = [x for x in n.args if x.op != 'unbound' and not any(y.op == 'unbound' for y in vq.walk(x))]
            if len(vals) == 1:
                return self.ev(vals[0])
            return self.only(vals)
        if op == 'attr':
            b = n.args[0]
            if b.op in ('ext', 'fn', 'cls', 'clsref'):
                return NO
            o = self.ev(b)
            if isinstance(o, Obj):
                a = 'a_' + n.args[1]
                if not hasattr(o, a):
                    if isinstance(o, (Ser, Frame)) and n.args[1] in (o.index if isinstance(o, Ser) else o.columns).vals:
                        return o.get(n.args[1])
                    raise Undecided(f'attribute {n.args[1]}')
                return getattr(o, a)
            return NO
        if op == 'index':
            o = self.ev(n.args[0])
            if isinstance(o, Obj):
                if not hasattr(o, 'get'):
                    raise Undecided('index')
                return o.get(self.key(n.args[1]))
            return NO
        if op == 'binop' and n.args[0] in OPS:
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            return self.combine(OPS[n.args[0]], a, b)
        if op == 'cmp' and n.args[0] in CMPS:
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            return self.combine(CMPS[n.args[0]], a, b)
        if op == 'unop' and n.args[0] in ('~', '-'):
            v = self.ev(n.args[1])
            if isinstance(v, Obj):
                return v.map((lambda x: not x) if n.args[0] == '~' else (lambda x: -x))
        if op == 'call':
            return self.obj_call(n)
        return NO

    def only(self, vals):
        """The one of several values that can be had: what raises an exception was not assigned."""
        out = []
        for x in vals:
            try:
                out.append(self.ev(x))
            except Raised:
                continue
            except Undecided:
                return NO
        return out[0] if len(out) == 1 < len(vals) else NO

    def combine(self, f, a, b):
        if isinstance(a, Ix):
            a = a.a_values
        if isinstance(b, Ix):
            b = b.a_values
        if isinstance(a, Obj) and hasattr(a, 'zip') and not (isinstance(a, Arr) and isinstance(b, (Frame, Ser))):
            return a.zip(b, f)
        if isinstance(b, Obj) and hasattr(b, 'zip'):
            return b.zip(a, f, rev=True)
        if isinstance(a, Obj) or isinstance(b, Obj):
            raise Undecided('operation')
        return NO

    def key(self, n):
        if n.op == 'tuple':
            return tuple(self.key(x) for x in n.args)
        return self.ev(n)

    def args(self, n):
        a = []
        for x in n.args[1]:
            if x.op == 'star':
                a += list(self.ev(x.args[0]))
            else:
                a.append(self.ev(x))
        kw = {}
        for k, v in n.args[2]:
            if k == '**':
                kw.update(self.ev(v))
            else:
                kw[k] = self.ev(v)
        return a, kw

    def obj_call(self, n):
        f = n.args[0]
        if f.op == 'ext':
            if f.args[0] in EXT:
                a, kw = self.args(n)
                return EXT[f.args[0]](*a, **kw)
            nm = f.args[0].rsplit('.', 1)[-1]
            if f.args[0] in ('builtins.getattr', 'builtins.hasattr') and len(n.args[1]) >= 2 and not n.args[2]:
                o = self.ev(n.args[1][0])
                if isinstance(o, Row):
                    k = self.ev(n.args[1][1])
                    if nm == 'hasattr':
                        return k in o.fields
                    if k in o.fields:
                        return o.fields[k]
                    if len(n.args[1]) < 3:
                        raise Raised('AttributeError', 'AttributeError')
                    return self.ev(n.args[1][2])
            if f.args[0] == 'builtins.dir' and len(n.args[1]) == 1:
                o = self.ev(n.args[1][0])
                if isinstance(o, Row):
                    return list(o.fields)
            if f.args[0] == 'builtins.isinstance' and len(n.args[1]) == 2:
                kinds = n.args[1][1].args if n.args[1][1].op == 'tuple' else [n.args[1][1]]
                names = [k.args[0].rsplit('.', 1)[-1] if k.op == 'ext' else None for k in kinds]
                o = self.ev(n.args[1][0])
                plain = {'str': str, 'int': int, 'float': float, 'dict': dict, 'list': list, 'tuple': tuple, 'bool': bool, 'set': set}
                tables = ('DataFrame', 'NDFrame', 'Series', 'ndarray', 'Index', 'MultiIndex')
                if (o is None or isinstance(o, (str, int, float, dict, list, tuple, set))) and names and all(x in plain or x in tables for x in names) and any(x in tables for x in names):
                    return isinstance(o, tuple(plain[x] for x in names if x in plain))
                if isinstance(o, (Frame, Ser, Arr, Ix)) and None not in names:
                    own = {Frame: ['DataFrame', 'NDFrame'], Ser: ['Series', 'NDFrame'], Arr: ['ndarray'], Ix: ['Index', *(['MultiIndex'] if isinstance(o, Ix) and o.multi else [])]}
                    return any(x in names for t, xs in own.items() if isinstance(o, t) for x in xs)
            if f.args[0] == 'collections.defaultdict' and len(n.args[1]) == 1 and not n.args[2] and n.args[1][0].op == 'ext':
                make = {'list': list, 'dict': dict, 'set': set, 'int': int, 'float': float}.get(n.args[1][0].args[0].rsplit('.', 1)[-1])
                if make is not None:
                    return collections.defaultdict(make)
            if f.args[0] == 'builtins.dict.fromkeys' and not n.args[2]:
                a = [self.ev(x) for x in n.args[1]]
                return dict.fromkeys(seq(a[0]), *a[1:])
            if f.args[0] == 'builtins.dict' and len(n.args[1]) == 1 and not n.args[2]:
                v = self.ev(n.args[1][0])
                if isinstance(v, Ser):
                    return v.m_to_dict()
            if f.args[0] == 'builtins.sorted' and n.args[1] and n.args[2]:
                return [x for x, _b in self.members(n)]
            if f.args[0].startswith('builtins.') and nm in ('list', 'sorted', 'set', 'tuple', 'len') and len(n.args[1]) == 1 and not n.args[2]:
                v = self.ev(n.args[1][0])
                if isinstance(v, Obj):
                    return {'list': list, 'sorted': sorted, 'set': set, 'tuple': tuple, 'len': len}[nm](v if nm == 'len' else seq(v))
            return NO
        r = vq.recv(n)
        if r is None or r.op in ('ext', 'fn', 'cls'):
            return NO
        o = self.ev(r)
        if isinstance(o, Obj):
            nm = vq.bname(n)
            if nm in ('agg', 'aggregate') and isinstance(o, Groups):
                return self.aggregate(o, n)
            if (nm in ('apply', 'map') or nm == 'transform' and isinstance(o, Frame)) and n in self.ip.cb_results:
                return self.apply(o, n)
            m = getattr(o, 'm_' + str(nm), None)
            if m is None:
                raise Undecided(f'{type(o).__name__}.{nm}')
            a, kw = self.args(n)
            try:
                return m(*a, **kw)
            except TypeError as exc:
                raise Undecided(f'{nm}: {exc}') from exc
        return NO

    def aggregate(self, o, n):
        a = vq.arg(n, 'func', 0)
        if a is None:
            raise Undecided('agg')
        if a.op == 'dict':
            parts = {self.ev(k): v for k, v in a.args}
            cols = []
            for c, f in parts.items():
                cols.append(self.groupwise(o.get(c), f, n))
            return Frame(o.keys, Ix(list(parts)), [[c.vals[i] for c in cols] for i in range(len(o.keys))])
        return self.groupwise(o, a, n)

    def groupwise(self, o, f, n=None):
        if f.op == 'const':
            return o.reduce(REDUCE[self.ev(f)]) if self.ev(f) in REDUCE else self.no(f)
        if f.op == 'ext' and f.args[0].rsplit('.', 1)[-1] in REDUCE:
            return o.reduce(REDUCE[f.args[0].rsplit('.', 1)[-1]])
        if f.op == 'closure' and o.ser is not None:
            return Ser(o.keys, [self.applied(n, f, o.part(p)) for p in o.pos], o.ser.name)
        if f.op == 'fn' and o.ser is not None:
            return Ser(o.keys, [self.function(f, o.part(p)) for p in o.pos], o.ser.name)
        return self.no(f)

    def apply(self, o, n):
        """Values of a function that is passed to a table, for each of its groups or values."""
        kw = {k: self.ev(v) for k, v in n.args[2]}
        if len(n.args[1]) != 1 or set(kw) - {'axis'} or kw.get('axis', 0) not in (0, 1, 'index', 'columns') or kw and not isinstance(o, Frame):
            raise Undecided('apply')
        f = n.args[1][0]
        if isinstance(o, Frame) and kw.get('axis') in (1, 'columns'):
            return Ser(o.index, [self.applied(n, f, Ser(o.columns, list(r), k)) for k, r in zip(o.index.vals, o.rows)])
        if isinstance(o, Groups):
            vals = [self.applied(n, f, o.part(p)) for p in o.pos]
            if any(isinstance(v, Obj) for v in vals):
                raise Undecided('apply')
            return Ser(o.keys, vals)
        if isinstance(o, Ser):
            return Ser(o.index, [self.applied(n, f, x) for x in o.vals], o.name)
        if isinstance(o, Frame):
            cols = [self.applied(n, f, Ser(o.index, [r[j] for r in o.rows], c)) for j, c in enumerate(o.columns.vals)]
            if all(isinstance(c, Ser) and c.index.vals == o.index.vals for c in cols):
                return Frame(o.index, o.columns, [[c.vals[i] for c in cols] for i in range(len(o.rows))])
            if vq.bname(n) == 'apply' and not any(isinstance(c, Obj) for c in cols):
                return Ser(o.columns, cols)
        raise Undecided('apply')

    def applied(self, n, f, x):
        """Value of a function that was passed in a call, for one argument."""
        found = list(dict.fromkeys(r for v, r in self.ip.cb_results.get(n, ()) if v is f))
        if len(found) != 1:
            raise Undecided('function that is passed')
        call = self.ip.N('callback', n)
        if any(e.kind in ('store_index', 'store_attr', 'delete', 'raise', 'loop') or e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.bname(e.node) in MUTATE for e in self.ip.events if any(g[0] is call for g in e.guards)):
            raise Undecided('function with effects')
        pars = [c for c in vq.walk(found[0]) if c.op == 'cbparam' and c.args[0] is n and c.args[1] == 0]
        old, made = dict(self.env), set(self.heap)
        try:
            for c in pars:
                self.env[c] = x
            return self.ev(found[0])
        finally:
            for h in set(self.heap) - made:
                del self.heap[h]
            self.env.clear()
            self.env.update(old)

    def sort_key(self, n, f):
        if f.op == 'ext' and f.args[0] in ('builtins.int', 'builtins.str', 'builtins.float', 'builtins.len'):
            return {'int': int, 'str': str, 'float': float, 'len': len}[f.args[0][9:]]
        return lambda x: self.applied(n, f, x)

    def function(self, f, x):
        """Value of a function of the repository for one argument."""
        g = getattr(self.world, 'functions', {}).get(f.args[0]) or getattr(self.world, 'functions', {}).get(f.args[0].rsplit('.', 1)[-1])
        if g is None:
            raise Undecided(f'function {f.args[0]}')
        return g(x)

    def no(self, n):
        raise Undecided(show(n, 3))

    # -- loops ---------------------------------------------------------------------
    def each(self, n):
        """Members of an iterable: a list of (value, bindings)."""
        if n.op in ('tuple', 'list') and len(n.args) > 1 and n not in self.ip.appends and not any(x.op == 'star' for x in n.args) and n not in self.env:
            p = self.ip.phi(list(n.args))
            if p.op == 'phi':
                return [(v, {p: v}) for v in (self.ev(x) for x in n.args)]
        if n.op == 'call':
            f, a, _kw = n.args
            nm = vq.bname(n)
            if f.op == 'ext' and nm == 'enumerate' and a:
                return [((i, x), {**b, self.ip.N('pos', a[0]): i}) for i, (x, b) in enumerate(self.members(a[0]))]
            if f.op == 'ext' and nm == 'zip':
                out = []
                for t in zip(*[self.members(x) for x in a]):
                    b = {}
                    for _x, y in t:
                        b.update(y)
                    out.append((tuple(x for x, _y in t), b))
                return out
            if f.op == 'attr' and not a and nm in ('items', 'iterrows', 'values'):
                d = f.args[0]
                o = self.ev(d)
                if isinstance(o, (Ser, Frame)) or isinstance(o, dict):
                    if nm == 'values' and not isinstance(o, dict):
                        return None
                    pairs = list(o.items()) if isinstance(o, dict) else o.m_iterrows() if nm == 'iterrows' else o.m_items()
                    k = self.ip.N('elem', self.ip.N('attr', d, 'index') if nm == 'iterrows' else self.ip.N('call', self.ip.N('attr', d, 'keys'), (), ()))
                    second = self.ip.N('row', d) if nm == 'iterrows' else self.ip.N('index', d, k)
                    made = [(i, y) for i, y in enumerate(d.args[:2]) if y.op != 'const'] if d.op == 'dcomp' and nm == 'items' else []
                    also = [x for x in self.ip.values_of.get(d, ()) if x.op in ('phi', 'ite', 'call', 'binop', 'index')] if nm != 'iterrows' else []
                    return [(v if nm == 'values' else (key, v), {k: key, second: v, **{x: v for x in also}, **{y: (key, v)[i] for i, y in made}}) for key, v in pairs]
        return None

    def members(self, n):
        out = self.each(n)
        if out is None:
            if n.op == 'list' and any(self.ev(n) and True for _ in (0,)) and id(self.ev(n)) in self.added:
                return super().members(n)
            if n.op in ('comp', 'ite', 'list') or vq.xcall(n, 'list', 'tuple', 'iter', 'sorted', 'reversed', 'tqdm'):
                return super().members(n)
            o = self.ev(n)
            out = [(x, {}) for x in (o if not isinstance(o, (set, frozenset)) else sorted(o, key=repr))]
        var = self.ip.N('elem', n)
        return [(x, {**b, var: x}) for x, b in out]

    def loop(self, lp, events, depth):
        mark = len(self.cached)
        self.marks = [*getattr(self, 'marks', []), mark]
        try:
            return super().loop(lp, events, depth)
        finally:
            self.marks.pop()

    def rename(self, e, t, names):
        """The levels of an axis of a table get their names."""
        b = e.target.args[0]
        o = self.ev(b)
        if len(names) != len(t.names):
            raise Raised('ValueError', 'ValueError')
        if not isinstance(o, (Frame, Ser)):
            return
        if b not in self.env:
            self.env[b] = o
            self.cached.append(b)
        new = Ix(t.vals, names)
        setattr(o, e.target.args[1], new)
        self.env[e.target] = new

    def owner(self, e, t, names):
        """The labels of one table that were stored before get their names."""
        own = {(id(o), a): (o, a) for o in self.env.values() if isinstance(o, (Frame, Ser)) for a in ('columns', 'index') if getattr(o, a, None) is t}
        if len(own) != 1 or len(names) != len(t.names):
            return False
        (o, a), = own.values()
        new = Ix(t.vals, names)
        setattr(o, a, new)
        for k, v in list(self.env.items()):
            if v is t:
                self.env[k] = new
        self.env.pop(e.target, None) if ('labels', e.target) in self.env else None
        return True

    def unknown(self, n, exc):
        nm = vq.bname(n.args[0]) if n.args[0].op == 'call' else vq.bname(n)
        if nm in getattr(self.world, 'must', ()):
            raise exc

    def fresh(self, lp):
        """A new round of a loop: objects made in the previous round are made again."""
        mark = self.marks[-1]
        keep = [n for n in self.cached[mark:] if made_before(n, lp)]
        for n in self.cached[mark:]:
            if n not in keep:
                self.env.pop(n, None)
        self.cached[mark:] = keep
        self.marks[-1] += len(keep)

    def event(self, e):
        if e.kind == 'pin':
            self.env.pop(e.node, None)
            try:
                v = self.ev(e.node)
            except (Undecided, Raised):
                return
            if isinstance(v, Obj):
                self.env[e.node] = v
                self.cached.append(e.node)
            return
        if e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.bname(e.node) in MUTATE and vq.recv(e.node) is not None:
            try:
                o = self.ev(vq.recv(e.node))
            except (Undecided, Raised):
                o = None
            if isinstance(o, Obj):
                r = vq.recv(e.node)
                if r not in self.env:
                    self.env[r] = o
                    self.cached.append(r)
                self.env.pop(e.node, None)
                self.env[e.node] = self.ev(e.node)
                return
        if e.kind in ('store_index', 'store_attr') and e.target is not None:
            try:
                t = self.ev(e.target)
            except Undecided:
                return
            if e.kind == 'store_attr' and ('labels', e.target) in self.env:
                t = self.env['labels', e.target]
            if isinstance(t, Obj):
                if e.target not in self.env:
                    self.env[e.target] = t
                    self.cached.append(e.target)
                base = e.target
                while base.op == 'attr' and base.args[1] in ('loc', 'iloc', 'at'):
                    base = base.args[0]
                if e.kind == 'store_index':
                    o = self.ev(base)
                    if base not in self.env:
                        self.env[base] = o
                        self.cached.append(base)
                    if not hasattr(t, 'put') and not isinstance(t, Loc):
                        return
                    v = self.ev(e.value)
                    if e.aug and e.value.op == 'binop' and e.value not in self.env:
                        # computed from the entry that it replaces
                        self.env[e.value] = v
                        self.cached.append(e.value)
                    (Loc(o, t.kind) if isinstance(t, Loc) else t).put(self.key(e.node), v)
                else:
                    name = self.ev(e.node) if e.node is not None and e.node.op == 'const' else None
                    if name in ('names', 'name') and isinstance(t, Ix) and e.target.op == 'attr' and e.target.args[1] in ('columns', 'index'):
                        self.rename(e, t, [self.ev(e.value)] if name == 'name' else seq(self.ev(e.value)))
                        return
                    if name in ('names', 'name') and isinstance(t, Ix) and self.owner(e, t, [self.ev(e.value)] if name == 'name' else seq(self.ev(e.value))):
                        return
                    if name in ('names', 'name') and isinstance(t, Ix):
                        raise Undecided(f'names of labels {show(e.target, 4)}')
                    s = getattr(t, 's_' + str(name), None)
                    if s is not None:
                        v = self.ev(e.value)
                        if isinstance(v, (Frame, Ser, Ix)) and e.value not in self.env:
                            # what is stored is what is changed later
                            self.env[e.value] = v
                            self.cached.append(e.value)
                        before = self.ip.N('attr', e.target, name)
                        if before not in self.env and hasattr(t, 'a_' + name) and hasattr(t, 'store') and all(isinstance(x.key, tuple) and x.key and x.key[0] == 'u' for x in e.loops):
                            # what was read before the store
                            self.env[before] = getattr(t, 'a_' + name)
                        s(v)
                        if name in ('columns', 'index') and isinstance(v, list):
                            k = ('labels', e.value)
                            self.env[k] = getattr(t, name)
                            self.cached.append(k)
                return
            if e.kind == 'store_attr':
                return
        super().event(e)
