"""The surroundings of the steps of a damage and loss assessment: its models, its data and its files."""

from __future__ import annotations

import copy
from pathlib import PurePosixPath

from . import dlworld as D
from . import vq
from .ceval import NO, Raised, Undecided
from .lframe import Arr, Frame, FTrace, Ix, Obj

MOD = 'pelicun.assessment.'
CLS = MOD + 'DLCalculationAssessment.'
OPAQUE = (
    'pelicun.model.damage_model', 'pelicun.model.demand_model', 'pelicun.model.asset_model', 'pelicun.model.loss_model', 'pelicun.model.pelicun_model', 'pelicun.base', 'pelicun.file_io', 'pelicun.uq',
    'get_default_data', 'Logger',
)


def own(v):
    """A copy that later changes of the original do not reach."""
    if isinstance(v, Obj):
        return v.m_copy() if hasattr(v, 'm_copy') else v
    if isinstance(v, dict):
        return {k: own(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(own(x) for x in v)
    return copy.deepcopy(v)


class Log(Obj):
    def __init__(self, world):
        self.world = world

    def m_msg(self, *a, **_kw):
        self.world.messages.append(a[0] if a else '')

    m_warning = m_add_warning = m_div = m_msg


class Part(Obj):
    """A model of the assessment: calls are recorded, and answered by the surroundings."""

    def __init__(self, world, name):
        self.world, self.name = world, name

    def __getattr__(self, name):
        if name.startswith('m_'):
            return lambda *a, **kw: self.world.answer(self.name, name[2:], a, kw)
        if name.startswith('a_') and (self.name, name[2:]) in self.world.attributes:
            return self.world.attributes[self.name, name[2:]]
        if name.startswith('s_'):
            return lambda v: self.world.put(self.name, name[2:], v)
        raise AttributeError(name)


class Me(Obj):
    def __init__(self, world):
        self.world = world
        self.a_log = Log(world)
        for x in ('demand', 'asset', 'damage', 'loss'):
            setattr(self, 'a_' + x, Part(world, x))

    def m_get_default_data(self, *a, **kw):
        return self.world.answer('self', 'get_default_data', a, kw)

    def s_stories(self, v):
        self.world.sets['self', 'stories'] = v


class Surround(D.World):
    """`answers` gives the results of the calls of the models by (model, method)."""

    def __init__(self, ctx, params, answers, attributes=None, tables=None, stand=None):
        super().__init__(ctx, None, params=params)
        self.answers, self.attributes, self.tables, self.stand = answers, attributes or {}, tables or {}, stand or {}
        self.messages, self.sets, self.done_, self.me, self.asked = [], {}, [], Me(self), []
        self.must = (*D.World.must, *(k[1] for k in answers), *self.stand)
        for p in self.tables:
            self.files[p] = self.tables[p]

    def answer(self, model, name, a, kw):
        if (model, name) not in self.answers:
            raise Undecided(f'{model}.{name}')
        f = self.answers[model, name]
        kw.pop('log', None)
        self.done_.append((model, name, own(a), own(kw)))
        return f(*a, **kw) if callable(f) else own(f)

    def put(self, model, name, v):
        self.sets[model, name] = v
        self.done_.append((model, name + ' =', (own(v),), {}))

    def made(self, model, name):
        return [(a, kw) for m, x, a, kw in self.done_ if (m, x) == (model, name)]

    def read(self, path, index_col=None, **kw):
        if isinstance(self.tables.get(str(path)), Arr) and index_col is None and set(kw) == {'header'} and kw['header'] is None:
            a = self.tables[str(path)]
            return Frame(Ix(range(a.shape[0])), Ix(range(a.shape[1])), a.m_tolist())
        kw.pop('encoding_errors', None)
        kw.pop('encoding', None)
        t = self.tables.get(str(path))
        if t is None:
            raise Raised('FileNotFoundError', 'FileNotFoundError')
        if kw or index_col != 0:
            raise Undecided('read_csv')
        return own(t)

    def opened(self, path, mode):
        if 'w' in mode:
            raise Undecided('writing')
        if str(path) not in self.tables:
            raise Raised('FileNotFoundError', 'FileNotFoundError')
        return ('file', str(path))

    def __call__(self, tr, n):
        if n.op == 'param' and n.args[-1] == 'self':
            return self.me
        if n.op == 'call':
            nm = vq.bname(n)
            c = vq.callee(n)
            full = str(c[1]) if c else ''
            if full == 'json.load':
                a, _kw = tr.args(n)
                if not isinstance(a[0], tuple) or a[0][0] != 'file':
                    raise Undecided('json.load')
                return own(self.tables[a[0][1]])
            if nm == 'isna' and full.startswith('pandas'):
                a, _kw = tr.args(n)
                return a[0] is None or D.isnan(a[0])
            if nm in self.stand:
                a, kw = tr.args(n)
                kw.pop('log', None)
                return self.stand[nm](*a, **kw)
            if nm == 'substitute_default_path':
                a, _kw = tr.args(n)
                return [str(x).replace('PelicunDefault/', '/dlml/') for x in a[0]]
        return super().__call__(tr, n)


def follow(ctx, name, w, key, opaque=OPAQUE):
    """The trace of a step."""
    ip = ctx.interp(CLS + name, opaque=opaque, key=key)
    return FTrace(ip, w).run()


__all__ = ['CLS', 'MOD', 'NO', 'OPAQUE', 'PurePosixPath', 'Surround', 'follow', 'own']
