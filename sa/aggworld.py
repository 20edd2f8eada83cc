"""Aggregation of losses on small tables: what `LossModel.aggregate_losses` returns for given samples and settings."""

from __future__ import annotations

from . import vq
from .ceval import NO, Raised, Undecided
from .lframe import Arr, FTrace, Frame, Ix, Obj, Ser, isnan
from .trace import Stopped

ENTRY = 'pelicun.model.loss_model.LossModel.aggregate_losses'
DS = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
LF = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']


class Any(Obj):
    """Something that other parts provide: attributes are given, messages are not recorded."""

    def __init__(self, **kw):
        self.stored = {}
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, name):
        if name == 'a_log':
            return Any()
        if name in ('m_msg', 'm_warning', 'm_add', 'm_div', 'm_add_warning'):
            return lambda *_a, **_kw: None
        if name.startswith('s_'):
            return lambda v: self.store(name[2:], v)
        raise AttributeError(name)

    def store(self, name, v):
        self.stored[name] = v
        setattr(self, 'a_' + name, v)


def entry(ip, b, k, st, _pos):
    """The entry of a table of constants is the one of the key."""
    return ip.N('index', b, k) if b.op == 'dcomp' or b.op == 'dict' and b.args and ip.closed_keys(b, st) and ip.ckey(k) is None else None


class World:
    must = ('save_to_csv', 'generate_sample')

    def __init__(self, params):
        self.params, self.units, self.saved = params, None, []

    def __call__(self, tr, n):
        if n.op == 'param' and n.args[-1] in self.params:
            return self.params[n.args[-1]]
        if n.op == 'call' and vq.bname(n) == 'save_to_csv':
            a, kw = tr.args(n)
            return self.save(*a, **kw)
        if n.op == 'call' and vq.bname(n) == 'convert_to_MultiIndex':
            a, kw = tr.args(n)
            return self.split(*a, **kw)
        return NO

    @staticmethod
    def split(data, axis=0, inplace=False):
        if axis != 1 or inplace or not isinstance(data, Frame) or data.columns.multi:
            raise Undecided('convert_to_MultiIndex')
        parts = [str(c).split('-') for c in data.columns.vals]
        n = max((len(p) for p in parts), default=1)
        if n == 1:
            return data
        return Frame(data.index, Ix([tuple([*p, *[''] * (n - len(p))]) for p in parts]), [list(r) for r in data.rows])

    def save(self, data, path=None, units=None, unit_conversion_factors=None, orientation=0, use_simpleindex=True, log=None):
        if not isinstance(data, Frame) or path is not None or orientation != 0 or not isinstance(units, Ser):
            raise Undecided('save_to_csv')
        u = dict(zip(units.index.vals, units.vals))
        self.units = {c: u.get(c) for c in data.columns.vals}
        self.saved.append((unit_conversion_factors, use_simpleindex))
        cols = [(str(c) if not isinstance(c, tuple) else '-'.join(c)) if use_simpleindex else c for c in data.columns.vals]
        return Frame(Ix(['Units', *data.index.vals], data.index.names), Ix(cols), [[self.units[c] for c in data.columns.vals], *[list(r) for r in data.rows]])


def table(levels, cols, n, index=None):
    """A sample from columns and their values."""
    ks = list(cols)
    return Frame(Ix(list(range(n)) if index is None else index), Ix(ks, levels), [[cols[k][i] for k in ks] for i in range(n)])


def registry(values):
    """Replacement consequences by decision variable; drawing them is recorded."""
    drawn = []
    reg = Any(a_RV={k: Any(a_sample=None) for k in values})

    def generate(*a, **kw):
        size = a[0] if a else kw.get('sample_size')
        drawn.append(size)
        for k, v in values.items():
            reg.a_RV[k].a_sample = Arr((len(v),), v)

    reg.m_generate_sample = generate
    reg.a_RV_sample = {k: Arr((len(v),), v) for k, v in values.items()}
    return reg, drawn


class Outcome:
    def __init__(self, losses, exceeded, units, raised=None):
        self.losses, self.exceeded, self.units, self.raised = losses, exceeded, units, raised


def aggregate(ctx, ds, lf, dvs, config=None, combination=None, future=True, key='agg'):
    """The aggregated losses by column, the exceedance by decision variable, and the unit of each column."""
    ip = ctx.interp(ENTRY, opaque=('Logger', '_validate_input_replacement_thresholds', '_validate_input_loss_combination', 'save_to_csv', 'convert_to_MultiIndex', 'pelicun.uq'), key=key, hooks={'index': entry})
    units = {v: 'unit of ' + v for v in dvs}
    part = {'a_decision_variables': tuple(dvs), 'a_dv_units': units}
    me = Any(a_ds_model=Any(a_sample=ds, **part), a_lf_model=Any(a_sample=lf, **part), **part, a__asmnt=Any(a_unit_conversion_factors='factors'))
    w = World({'self': me, 'replacement_configuration': config, 'loss_combination': combination, 'future': future})
    tr = FTrace(ip, w).run()
    if tr.raised:
        return Outcome(None, None, None, tr.raised.name)
    r = tr.ev(tr.result)
    agg, over = r if isinstance(r, tuple) else (r, None)
    if not isinstance(agg, Frame):
        raise Undecided('aggregated losses')
    return Outcome(columns(agg), None if over is None else columns(over), w.units)


def columns(t):
    """Columns of a table by name, in the order of the realizations, without empty levels."""
    out = {}
    for j, c in enumerate(t.columns.vals):
        k = '-'.join(str(x) for x in c if x != '') if isinstance(c, tuple) else str(c)
        out[k] = [r[j] for r in t.rows]
    return out



# -- what is documented --------------------------------------------------------
def wanted(ds, lf, dvs, values=None, ratios=None, n=3):
    """Aggregated losses and exceedance, from columns of both models by name."""
    if ds is None and lf is None:
        out = {}
        for v in dvs:
            out.update({f'repair_{v.lower()}': [0.0]} if v != 'Time' else {'repair_time-sequential': [0.0], 'repair_time-parallel': [0.0]})
        return out, {}
    excluded = [any(x[i] > 0 for c, x in (ds or {}).items() if c[1] == 'replacement') for i in range(n)]
    rows = [[(c[0], c[1], c[-3], x[i]) for c, x in [*(ds or {}).items(), *(lf or {}).items()] if c[1] == 'replacement' or not excluded[i]] for i in range(n)]
    over = {v: [False] * n for v in values or {}}
    names = {c[0] for c in [*(ds or {}), *(lf or {})]}
    for v in values or {}:
        if v not in ratios or v not in names:
            continue
        for i, r in enumerate(rows):
            if not any(dv == v and loss == 'replacement' and x > 0 for dv, loss, _l, x in r):
                over[v][i] = sum(x for dv, loss, _l, x in r if dv == v and loss != 'replacement') > values[v][i] * ratios[v]
    for i in range(n):
        if any(o[i] for o in over.values()):
            rows[i] = [(v, 'replacement', '0', values[v][i]) for v in values]
    names |= set(values or {})
    out = {}
    for v in dvs:
        if v not in names:
            continue
        if v == 'Time':
            out['repair_time-sequential'] = [sum(x for dv, _o, _l, x in r if dv == v) for r in rows]
            out['repair_time-parallel'] = [max([sum(x for dv, _o, lc, x in r if dv == v and lc == loc) for loc in {lc for _d, _o, lc, _x in r}] or [0]) for r in rows]
        else:
            out[f'repair_{v.lower()}'] = [sum(x for dv, _o, _l, x in r if dv == v) for r in rows]
    return out, over


def same(a, b):
    return a is not None and b is not None and set(a) == set(b) and all(len(a[k]) == len(b[k]) and all(x == y or isinstance(x, float) and isinstance(y, (int, float)) and abs(x - y) < 1e-9 for x, y in zip(a[k], b[k])) for k in a)


def differ(a, b):
    for k in [*b, *(a or {})]:
        if a is None or k not in a or k not in b or not same({k: a[k]}, {k: b[k]}):
            return f'{k} is {(a or {}).get(k)}, not {b.get(k)}'
    return 'equal'


def judge(ctx, res, skipped, rule, what, ds, lf, dvs, values=None, ratios=None, report=None, kept=None, unit=None, n=3):
    """Compare the aggregation of a case with what is documented."""
    tables = [None if c is None else table(lv, c, n) for lv, c in ((DS, ds), (LF, lf))]
    before = [None if t is None else (list(t.columns.vals), [list(r) for r in t.rows]) for t in tables]
    reg, drawn = registry(values) if values is not None else (None, None)
    try:
        o = aggregate(ctx, *tables, dvs, None if values is None else (reg, ratios))
    except (Undecided, Stopped) as exc:
        skipped.append(f'{what}: {exc}')
        return
    except Raised as exc:
        o = Outcome(None, None, None, exc.name)
    if o.raised:
        res.check(rule, False, what, ENTRY, f'{what}: {o.raised} is raised')
        return
    want, over = wanted(ds, lf, dvs, values, ratios, n)
    res.check(rule, same(o.losses, want), what, ENTRY, f'{what}: {differ(o.losses, want)}')
    if report:
        ok = o.exceeded is not None and same(o.exceeded, over)
        res.check(report, ok, f'{what}: exceedance', ENTRY, f'{what}: the exceedance of {differ(o.exceeded, over)}')
        if values is not None:
            res.check(report, drawn == [n], f'{what}: draws', ENTRY, f'{what}: replacement consequences of {drawn} realizations are drawn for {n} realizations')
    if kept:
        for m, t, b in zip(('damage', 'loss function'), tables, before):
            if t is not None:
                res.check(kept, (list(t.columns.vals), t.rows) == b, f'{what}: {m} losses kept', ENTRY, f'{what}: the losses of the {m} model are changed by the aggregation')
    if unit and o.units is not None:
        u = {c: 'unit of ' + next((v for v in dvs if c.startswith('repair_' + v.lower())), '?') for c in o.units}
        res.check(unit, o.units == u, f'{what}: units', ENTRY, f'{what}: the units are {o.units}')


__all__ = ['DS', 'LF', 'Any', 'Raised', 'Stopped', 'aggregate', 'isnan', 'judge', 'registry', 'table', 'wanted']
