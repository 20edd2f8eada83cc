"""P40: the loss model combines, keeps and saves everything that its two sub-models have."""

from __future__ import annotations

from ..ceval import Raised, Undecided
from .. import vq
from ..lframe import NAN, FTrace, Frame, Ix, Obj, Ser, isnan, seq
from ..trace import Stopped
from .p38 import Any, World
from .p39 import alike, bound, own_entry

EXPLANATION = (
    'The properties and methods of the loss model are followed on small samples, parameters and loss maps of its two sub-models: what is '
    'combined, which parameters remain and in which units, which are missing, and what is written to and read from files.'
)
LM = 'pelicun.model.loss_model.LossModel.'
DSM = 'pelicun.model.loss_model.RepairModel_DS.'
LFM = 'pelicun.model.loss_model.RepairModel_LF.'
RULES = {
    'sample': 'the sample has the losses of both models, each under its own key',
    'params': 'the parameters are those of both models',
    'map': 'the loss map is the one given, extended as asked',
    'source': 'the parameters of a consequence are those of the first source that has them, and only those of the map that are complete',
    'units': 'parameters are converted to base units once',
    'missing': 'missing are the consequences of the map that no model has',
    'saved': 'the losses are saved in the units of their parameters',
    'loaded': 'the losses that were saved are loaded with their units',
    'calculate': 'the losses are calculated from the damage, the demands and the components of the assessment',
}
LEVELS = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
LLEVELS = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
DSAMPLE = {
    ('Cost', 'con.B', 'B.1', '1', '1', '2', '0'): [1.0, 2.0, 3.0], ('Cost', 'con.B', 'B.1', '2', '1', '2', '7'): [4.0, 5.5, 6.0],
    ('Cost', 'con.A', 'A.1', '1', '2', '1', '0'): [10.0, 20.0, 31.0], ('Time', 'con.B', 'B.1', '1', '1', '2', '0'): [0.25, 0.5, 0.75],
}
LSAMPLE = {
    ('Time', 'lf.E', 'E.1', '3', '0', '0'): [7.0, 8.0, 9.0], ('Cost', 'lf.E', 'E.1', '3', '0', '0'): [70.0, 81.0, 90.0],
    ('Cost', 'lf.E', 'E.1', '1', '2', '4'): [17.0, 18.0, 19.0],
}


def samples(data, levels):
    return Frame(Ix([0, 1, 2]), Ix(list(data), levels), [[data[c][i] for c in data] for i in range(3)])


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for f in (combined, parameters, mapped, loaded_parameters, inconsistent, saved, reloaded, calculated):
        try:
            f(ctx, res, skipped)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Raised as exc:
            skipped.append(f'{f.__name__}: {exc.name} is raised')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def trace(ctx, qual, params, stand=None, opaque=(), cls=None):
    w = World(params, stand)
    return FTrace(ctx.interp(qual, opaque=('Logger', 'pelicun.file_io', '_convert_marginal_params', *opaque), key='p40', hooks={'index': own_entry}, self_cls=cls), w).run()


def judged(skipped, res, rule, what, at, f):
    """The trace, or None when it cannot be followed; an exception breaks the rule."""
    try:
        tr = f()
    except (Undecided, Stopped) as exc:
        skipped.append(f'{what}: {exc}')
        return None
    except Raised as exc:
        res.check(rule, False, what, at, f'{what}: {exc.name} is raised')
        return None
    if tr.raised:
        res.check(rule, False, what, at, f'{what}: {tr.raised.name} is raised')
        return None
    return tr


def result(tr):
    return tr.ev(tr.ip.ret)


def combined(ctx, res, skipped):
    at = LM + 'sample'
    ds, lf = samples(DSAMPLE, LEVELS), samples(LSAMPLE, LLEVELS)
    both = {**DSAMPLE, **{(*k[:3], 'N/A', *k[3:]): v for k, v in LSAMPLE.items()}}
    for what, a, b, exp in (('both', ds, lf, both), ('damage states only', ds, None, DSAMPLE), ('loss functions only', None, lf, LSAMPLE), ('no losses', None, None, None)):
        me = Any(a_ds_model=Any(a_sample=a), a_lf_model=Any(a_sample=b))
        tr = judged(skipped, res, 'sample', what, at, lambda: trace(ctx, at, {'self': me}, cls=LM[:-1]))
        if tr is None:
            continue
        try:
            got = result(tr)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
            continue
        if exp is None:
            res.check('sample', got is None, what, at, f'{what}: the sample is not None')
            continue
        if not isinstance(got, Frame):
            res.check('sample', got is not None, what, at, f'{what}: there is no sample')
            continue
        have = dict(zip(got.columns.vals, zip(*got.rows)))
        want = LLEVELS if a is None else LEVELS
        res.check('sample', got.columns.names == want, f'{what}: levels', at, f'{what}: the levels are {got.columns.names}')
        bad = [k for k in exp if k not in have or not alike(list(have[k]), exp[k])]
        res.check('sample', not bad, f'{what}: values', at, f'{what}: the loss of {bad[:1]} is not that of its model')
        res.check('sample', len(got.columns) == len(exp), f'{what}: columns', at, f'{what}: there are {len(got.columns)} losses, not {len(exp)}')
    for x, data, levels in ((ds, DSAMPLE, LEVELS), (lf, LSAMPLE, LLEVELS)):
        res.check('sample', x.columns.vals == list(data) and x.columns.names == levels and alike(x.rows, samples(data, levels).rows), f'models: {len(levels)}', at, 'the samples of the models are changed')


PCOLS = [('DV', 'Unit'), ('Quantity', 'Unit'), ('DS1', 'Theta_0')]
LCOLS = [('DV', 'Unit'), ('Demand', 'Type'), ('LossFunction', 'Theta_0')]


def prm(rows, cols):
    return Frame(Ix(list(rows), ['Loss Driver', 'Decision Variable']), Ix(cols), [list(r) for r in rows.values()])


def parameters(ctx, res, skipped):
    at = LM + 'loss_params'
    a = {('con.B', 'Cost'): ['USD', '1 EA', 3.0], ('con.A', 'Time'): ['day', '2 EA', 4.0]}
    b = {('lf.E', 'Cost'): ['EUR', 'PFA', 'x'], ('lf.E', 'Time'): ['hour', 'PID', 'y']}
    for what, x, y in (('both', a, b), ('damage states only', a, None), ('loss functions only', None, b), ('no parameters', None, None)):
        me = Any(a_ds_model=Any(a_loss_params=prm(x, PCOLS) if x else None), a_lf_model=Any(a_loss_params=prm(y, LCOLS) if y else None))
        tr = judged(skipped, res, 'params', what, at, lambda: trace(ctx, at, {'self': me}, cls=LM[:-1]))
        if tr is None:
            continue
        try:
            got = result(tr)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
            continue
        exp = {k: dict(zip(c, r)) for d, c in ((x, PCOLS), (y, LCOLS)) for k, r in (d or {}).items()}
        if not exp or not isinstance(got, Frame):
            res.check('params', got is None and not exp, what, at, f'{what}: there are {"no " if exp else ""}parameters')
            continue
        have = {k: {c: v for c, v in zip(got.columns.vals, r) if not isnan(v)} for k, r in zip(got.index.vals, got.rows)}
        res.check('params', have == exp and len(got.index) == len(exp), what, at, f'{what}: the parameters are {sorted(have)}')


class Model(Any):
    """A sub-model: what is stored in it is kept."""


def models(**kw):
    ds = Model(a_loss_params=None, a_loss_map='old', a_missing='old', a_converted=None, a_decision_variables=('Cost', 'Time'), a_sample=None, a_consequence='Repair', m__convert_marginal_params=kw.get('convert'))
    lf = Model(a_loss_params=None, a_loss_map='old', a_missing='old', a_converted=None, a_decision_variables=('Cost', 'Time'), a_sample=None, a_consequence='Repair', m__convert_marginal_params=kw.get('convert'))
    return ds, lf


def owner(ds, lf, **kw):
    return Any(a_ds_model=ds, a_lf_model=lf, a__asmnt=Any(a_asset=Any(), a_log='log', a_unit_conversion_factors='factors', **kw))


MAP = {'B.1': ('con.B', 'x'), 'Q.9': ('con.Q', 'y'), 'collapse': ('con.X', 'z')}


def map_of(rows=None, cols=('Repair',)):
    rows = {k: v[: len(cols)] for k, v in MAP.items()} if rows is None else rows
    return Frame(Ix(list(rows)), Ix(list(cols)), [list(r) for r in rows.values()])


def mapped(ctx, res, skipped):
    at = LM + 'add_loss_map'
    own = {k: v[:1] for k, v in MAP.items()}
    ids = ['A.1', 'B.1', 'collapse', 'con.Q', 'excessiveRID', 'irreparable']
    for what, given, policy, exp in (
        ('given', True, None, own),
        ('fill', True, 'fill', {**{k: (k,) for k in ids if k != 'excessiveRID'}, **own}),
        ('fill all', True, 'fill_all', {**{k: (k,) for k in ids}, **own}),
        ('default, fill', False, 'fill', {k: (k,) for k in ids if k != 'excessiveRID'}),
        ('default, fill all', False, 'fill_all', {k: (k,) for k in ids}),
        ('unknown policy', True, 'other', None),
        ('nothing', False, None, None),
    ):
        ds, lf = models()
        asked = []

        def load(*a, asked=asked, **kw):
            kw = bound(ctx, 'pelicun.file_io.load_data', a, kw)
            asked.append(kw)
            if kw.get('orientation', 0) != 1 or kw.get('reindex', True) or kw.get('return_units') or kw.get('unit_conversion_factors') is not None:
                raise Undecided('loss map')
            return map_of()
        try:
            tr = trace(ctx, at, {'self': owner(ds, lf), 'loss_map_path': 'map.csv' if given else None, 'loss_map_policy': policy}, {'load_data': load, 'list_unique_component_ids': lambda *_a: list(ids)}, ('list_unique_component_ids',), cls=LM[:-1])
            raised = tr.raised.name if tr.raised else None
        except Raised as exc:
            raised = exc.name
        except (Undecided, Stopped) as exc:
            skipped.append(f'map, {what}: {exc}')
            continue
        if exp is None or raised:
            res.check('map', (exp is None) == (raised is not None), what, at, f'{what}: {raised or "no exception"} is raised')
            continue
        for name, m in (('damage states', ds), ('loss functions', lf)):
            got = m.a_loss_map
            if got == 'old':
                res.check('map', False, f'{what}: {name}', at, f'{what}: the model of {name} does not have the map')
            elif isinstance(got, Frame):
                have = dict(zip(got.index.vals, (tuple(r) for r in got.rows)))
                res.check('map', have == exp and len(got.index) == len(exp) and got.columns.vals == ['Repair'], f'{what}: {name}', at, f'{what}: the map of the model of {name} is {have}')
        if given:
            res.check('map', [x['data_source'] for x in asked] == ['map.csv'], f'{what}: source', at, f'{what}: {[x["data_source"] for x in asked]} is read')


HEAD_DS = [('DV', 'Unit'), ('Incomplete', ''), ('Quantity', 'Unit'), ('DS1', 'Family'), ('DS1', 'Theta_0'), ('DS2', 'Family'), ('DS2', 'Theta_0'), ('DS3', 'Family'), ('DS3', 'Theta_0')]
HEAD_LF = [('DV', 'Unit'), ('Demand', 'Type'), ('Demand', 'Unit'), ('LossFunction', 'Family'), ('LossFunction', 'Theta_0')]
SCALE = {'day': 8.0, 'hour': 0.5, 'USD': 1.0, 'kUSD': 1000.0, 'kg': 2.0}
# stands for the conversion of the reference quantity, and for that of the argument of a function
ARG = {'1 EA': 1.0, '2 EA': 0.25, '7 EA': 0.125, '8 EA': 0.0625, 'g': 3.0, 'rad': 5.0, 'mps': 7.0}
SOURCES = {
    'first.csv': (HEAD_DS, {
        ('con.B', 'Cost'): ['USD', 0, '1 EA', 'normal', 3.0, NAN, NAN, NAN, NAN],
        ('con.A', 'Time'): ['day', 0, '2 EA', NAN, 5.0, 'normal', 7.0, NAN, NAN],
        ('con.A', 'Cost'): ['USD', 0, '2 EA', NAN, NAN, NAN, 4.0, NAN, NAN],
        ('con.Z', 'Cost'): ['USD', 0, '1 EA', NAN, 1.0, NAN, 2.0, NAN, 9.0],
    }),
    'second.csv': (HEAD_LF, {
        ('lf.E', 'Cost'): ['kUSD', 'PFA', 'g', 'normal', 3.5],
        ('lf.E', 'Time'): ['hour', 'PID', 'rad', NAN, 12.0],
        ('lf.Y', 'Time'): ['hour', 'PID', 'rad', NAN, 11.0],
    }),
    'third.csv': (HEAD_DS, {
        ('con.A', 'Cost'): ['kUSD', 0, '7 EA', 'lognormal', 30.0, 'normal', 40.0, NAN, NAN],
        ('con.B', 'Cost'): ['kUSD', 0, '8 EA', NAN, 60.0, NAN, 50.0, NAN, NAN],
        ('con.B', 'Time'): ['day', 1, '8 EA', NAN, 60.0, NAN, 50.0, NAN, NAN],
        ('con.C', 'Cost'): ['kUSD', 0, '1 EA', NAN, 2.5, NAN, 70.0, NAN, NAN],
    }),
    'fourth.csv': (HEAD_LF, {
        ('lf.E', 'Cost'): ['USD', 'PFV', 'g', NAN, 99.0],
        ('lf.G', 'Cost'): ['USD', 'PFV', 'mps', 'normal', 9.0],
    }),
    'fifth.csv': (HEAD_DS, {
        ('con.A', 'Time'): ['hour', 0, '2 EA', NAN, 6.0, 'normal', 17.0, NAN, NAN],
        ('con.C', 'Time'): ['hour', 0, '2 EA', NAN, 16.0, 'normal', 27.0, NAN, NAN],
    }),
    'carbon.csv': (HEAD_DS, {('con.A', 'Carbon'): ['kg', 0, '2 EA', NAN, 6.0, 'normal', 17.0, NAN, 3.0]}),
}
LOSS_MAP = {'A.1': ('con.A',), 'B.1': ('con.B',), 'C.1': ('con.C',), 'E.1': ('lf.E',), 'G.1': ('lf.G',), 'M.1': ('con.M',), 'A.2': ('con.A',)}
RUNS = {
    'all': (['first.csv', 'second.csv', 'third.csv', 'fourth.csv'], ('Cost', 'Time')),
    'other order': (['fourth.csv', 'third.csv', 'second.csv', 'first.csv'], ('Cost', 'Time')),
    'damage states only': (['third.csv', 'first.csv'], ('Cost', 'Time')),
    'loss functions only': (['second.csv'], ('Time',)),
    'another variable': (['carbon.csv', 'first.csv'], ('Carbon', 'Cost')),
    'twice': (['first.csv', 'second.csv', '', 'fifth.csv', 'third.csv', 'fourth.csv'], ('Cost', 'Time')),
}


def expected(names, dvs):
    par = {}
    for nm in names:
        if nm:
            head, rows = SOURCES[nm]
            for k, r in rows.items():
                par.setdefault((len(head), k), (head, r))
    cons = {v[0] for v in LOSS_MAP.values()}
    par = {k: v for k, v in par.items() if k[1][0] in cons and not (v[0] is HEAD_DS and v[1][1] == 1)}
    ds = {k: dict(zip(h, r)) for (_n, k), (h, r) in par.items() if h is HEAD_DS}
    lf = {k: dict(zip(h, r)) for (_n, k), (h, r) in par.items() if h is HEAD_LF}
    units = {}
    for d in (ds, lf):
        for k in sorted(d):
            if not (d is lf and k[1] in units and k[1] not in {x[1] for x in lf}):
                units.setdefault((k[1], d is lf), d[k]['DV', 'Unit'])
    for d in (ds, lf):
        for r in d.values():
            for c in r:
                if c[1] == 'Theta_0' and not isnan(r[c]):
                    r[c] = r[c] * SCALE[r['DV', 'Unit']] * (ARG[r['Demand', 'Unit']] if d is lf else 1.0 / ARG[r['Quantity', 'Unit']])
    missing = {(c, v) for c in cons for v in dvs if (c, v) not in ds and (c, v) not in lf}
    return ds, lf, {dv: units.get((dv, True), units.get((dv, False))) for dv, _l in units}, missing


def convert_params(ctx, calls):
    def convert(*a, **kw):
        kw = bound(ctx, 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params', (None, *a), kw)
        m, u = kw['marginal_params'], kw['units']
        if m.index.vals != u.index.vals or kw.get('arg_units') is not None and kw['arg_units'].index.vals != m.index.vals:
            raise Raised('AssertionError', 'AssertionError')
        calls.append(kw)
        j = m.columns.vals.index('Theta_0')
        rows = [list(r) for r in m.rows]
        args = kw['arg_units'].vals if kw.get('arg_units') is not None else ['1 EA'] * len(rows)
        for r, x, a in zip(rows, u.vals, args):
            if not isnan(x) and not isnan(r[j]):
                r[j] = r[j] * SCALE[x] * (1.0 / ARG[a] if kw.get('divide_units', True) else ARG[a])
        return Frame(Ix(m.index.vals, m.index.names), Ix(m.columns.vals, m.columns.names), rows)
    return convert


def loaded_parameters(ctx, res, skipped):
    at = LM + 'load_model_parameters'
    for what, (names, dvs) in RUNS.items():
        calls, asked, sub = [], [], []
        conv = convert_params(ctx, calls)
        ds, lf = models(convert=conv)
        for m in (ds, lf):
            m.a_loss_map, m.a_decision_variables = map_of(LOSS_MAP), dvs
        me = owner(ds, lf)

        def load(*a, asked=asked, **kw):
            kw = bound(ctx, 'pelicun.file_io.load_data', a, kw)
            asked.append(kw['data_source'])
            if kw.get('orientation', 0) != 1 or kw.get('reindex', True) or kw.get('return_units') or kw.get('unit_conversion_factors') is not None or not str(kw['data_source']).startswith('full/'):
                raise Undecided('parameters')
            head, rows = SOURCES[kw['data_source'][5:]]
            return Frame(Ix(list(rows)), Ix(head), [list(r) for r in rows.values()])

        def substitute(paths, sub=sub):
            sub.append(list(paths))
            return ['full/' + x for x in paths]

        parts = [names] if '' not in names else [names[: names.index('')], names[names.index('') + 1:]]
        done = True
        for part in parts:
            tr = judged(skipped, res, 'source', what, at, lambda: trace(ctx, at, {'self': me, 'data_paths': list(part), 'decision_variables': None}, {'load_data': load, 'substitute_default_path': substitute, '_convert_marginal_params': conv}, cls=LM[:-1]))
            done = done and tr is not None
        if not done:
            continue
        eds, elf, units, missing = expected(names, dvs)
        for name, m, exp in (('damage states', ds, eds), ('loss functions', lf, elf)):
            got = m.a_loss_params
            if not exp:
                res.check('source', got is None or not got.index.vals, f'{what}: {name}', at, f'{what}: there are parameters of {name}')
                continue
            if not isinstance(got, Frame):
                res.check('source', got is not None, f'{what}: {name}', at, f'{what}: there are no parameters of {name}')
                continue
            have = dict(zip(got.index.vals, got.rows))
            res.check('source', set(have) == set(exp) and len(have) == len(got.index), f'{what}: {name}', at, f'{what}: the parameters of {name} are for {sorted(have)}, not for {sorted(exp)}')
            used = [c for c in (HEAD_DS if exp is eds else HEAD_LF) if c[0][:2] != 'DS' or any(not isnan(x) for r in exp.values() for d, x in r.items() if d[0] == c[0])]
            cols = got.columns.vals
            if exp is eds:
                res.check('source', {c[0] for c in cols if c[0][:2] == 'DS'} == {c[0] for c in used if c[0][:2] == 'DS'}, f'{what}: damage states', at, f'{what}: there are parameters of {sorted({c[0] for c in cols})}')
            for k, r in exp.items():
                if k in have:
                    got_r = dict(zip(cols, have[k]))
                    bad = [c for c in used if c not in got_r or c != ('Incomplete', '') and c[1] != 'Theta_0' and not alike(got_r[c], r[c])]
                    res.check('source', not bad, f'{what}: {k}', at, f'{what}: {bad[:1]} of {k} is {[got_r.get(c) for c in bad[:1]]}')
                    bad = [c for c in used if c[1] == 'Theta_0' and not alike(got_r.get(c), r[c])]
                    res.check('units', not bad, f'{what}: {k}', at, ''.join(f'{what}: {c} of {k} is {got_r.get(c)}, not {r[c]}' for c in bad[:1]))
        got = me.stored.get('dv_units')
        res.check('units', got == units, f'{what}: decision variables', at, f'{what}: the units of the decision variables are {got}, not {units}')
        for name, m in (('damage states', ds), ('loss functions', lf)):
            if isinstance(m.a_missing, (set, frozenset)):
                res.check('missing', set(m.a_missing) == missing, f'{what}: {name}', at, f'{what}: missing are {sorted(m.a_missing)}, not {sorted(missing)}')


def inconsistent(ctx, res, skipped):
    """One source with several units for one decision variable."""
    at = LM + 'load_model_parameters'
    two = {('con.B', 'Cost'): ['USD', 0, '1 EA', 'normal', 3.0, NAN, NAN, NAN, NAN], ('con.A', 'Cost'): ['kUSD', 0, '1 EA', 'normal', 3.0, NAN, NAN, NAN, NAN], ('con.A', 'Time'): ['day', 0, '2 EA', NAN, 5.0, 'normal', 7.0, NAN, NAN]}
    fun = {('lf.E', 'Time'): ['day', 'PFA', 'g', 'normal', 3.5], ('lf.E', 'Cost'): ['USD', 'PID', 'rad', NAN, 12.0], ('lf.G', 'Time'): ['hour', 'PID', 'rad', NAN, 12.0]}
    for what, head, rows in (('damage states', HEAD_DS, two), ('loss functions', HEAD_LF, fun)):
        ds, lf = models(convert=convert_params(ctx, []))
        for m in (ds, lf):
            m.a_loss_map, m.a_decision_variables = map_of(LOSS_MAP), ('Cost', 'Time')
        try:
            tr = trace(ctx, at, {'self': owner(ds, lf), 'data_paths': ['x.csv'], 'decision_variables': None}, {
                'load_data': lambda *_a, head=head, rows=rows, **_k: Frame(Ix(list(rows)), Ix(head), [list(r) for r in rows.values()]),
                'substitute_default_path': list, '_convert_marginal_params': convert_params(ctx, [])}, cls=LM[:-1])
            raised = tr.raised.name if tr.raised else None
        except Raised as exc:
            raised = exc.name
        except (Undecided, Stopped) as exc:
            raised = str(exc).startswith('exception ')
            if not raised:
                skipped.append(f'inconsistent units, {what}: {exc}')
                continue
        res.check('source', bool(raised), f'inconsistent units: {what}', at, f'parameters of {what} with several units of one decision variable are accepted')


UNIT = {('con.B', 'Cost'): 'USD', ('con.A', 'Cost'): 'kUSD', ('con.B', 'Time'): 'day', ('con.A', 'Time'): 'hour', ('lf.E', 'Time'): 'hour', ('lf.E', 'Cost'): 'kUSD', ('con.Q', 'Time'): 'day', ('con.Q', 'Carbon'): 'kg'}


def saved(ctx, res, skipped):
    par_d = prm({k: [UNIT[k], '1 EA', 1.0] for k in UNIT if k[0][:2] != 'lf' and k != ('con.A', 'Time')}, PCOLS)
    par_l = prm({k: [UNIT[k], 'PFA', 'x'] for k in UNIT if k[0][:2] == 'lf'}, LCOLS)
    par_all = prm({k: [UNIT[k], '1 EA', 1.0] for k in UNIT if k[0][:2] != 'lf'}, PCOLS)
    less = {k: v for k, v in DSAMPLE.items() if k[2] != 'B.1' or k[0] != 'Time'}
    more = {**DSAMPLE, ('Time', 'con.B', 'B.1', '2', '1', '2', '7'): [0.5, 0.25, 0.125]}
    cases = [
        (LM, 'damage states', DSAMPLE, None, par_d, None), (LM, 'both', DSAMPLE, LSAMPLE, par_d, par_l), (LM, 'loss functions', None, LSAMPLE, None, par_l),
        (LM, 'consequences that did not occur', more, None, par_all, None), (LM, 'one decision variable', less, None, par_all, None),
        (DSM, 'damage states', DSAMPLE, None, par_d, None), (DSM, 'consequences that did not occur', more, None, par_all, None), (DSM, 'one decision variable', less, None, par_all, None),
    ]
    for qual, what, d, lf, pd_, pl in cases:
        for path in (None, 'dir/sample.csv'):
            at = qual + 'save_sample'
            own = qual == LM
            what_ = f'{"combined" if own else "own"} sample, {what}, {"returned" if path is None else "file"}'
            ds, lfm = models()
            ds.a_sample, ds.a_loss_params = samples(d, LEVELS) if d else None, pd_
            lfm.a_sample, lfm.a_loss_params = samples(lf, LLEVELS) if lf else None, pl
            asked = []

            def save(*a, asked=asked, **kw):
                kw = bound(ctx, 'pelicun.file_io.save_to_csv', a, kw)
                asked.append(kw)
                t, u = kw['data'], kw['units']
                if not isinstance(t, Frame) or not isinstance(u, Ser):
                    raise Undecided('saved')
                if kw['filepath'] is not None:
                    return None
                to = dict(zip(u.index.vals, u.vals))
                order = sorted(range(len(t.columns)), key=lambda j: t.columns.vals[j])
                cols = Ix([t.columns.vals[j] for j in order], t.columns.names)
                return Frame(Ix(['Units', *t.index.vals]), cols, [[to.get(c) for c in cols.vals], *[[-r[j] for j in order] for r in t.rows]])
            me = owner(ds, lfm)
            if not own:
                ds.a__asmnt = me.a__asmnt
                me = ds
            me.a__asmnt.a_unit_conversion_factors = 'factors'
            tr = judged(skipped, res, 'saved', what_, at, lambda: trace(ctx, at, {'self': me, 'filepath': path, 'save_units': True}, {'save_to_csv': save, 'Path': lambda x: x}, cls=qual[:-1]))
            if tr is None:
                continue
            exp = {**(d or {}), **({(*k[:3], 'N/A', *k[3:]) if d else k: v for k, v in lf.items()} if lf else {})}
            if len(asked) != 1:
                res.check('saved', False, what_, at, f'{what_}: {len(asked)} samples are saved')
                continue
            kw = asked[0]
            t, u = kw['data'], kw['units']
            have = dict(zip(t.columns.vals, zip(*t.rows)))
            bad = [k for k in exp if k not in have or not alike(list(have[k]), exp[k])]
            res.check('saved', not bad and len(t.columns) == len(exp), f'{what_}: losses', at, f'{what_}: the losses {bad[:1]} are not those of the sample')
            to = dict(zip(u.index.vals, u.vals))
            bad = [k for k in exp if to.get(k) != UNIT[k[1], k[0]]]
            res.check('saved', not bad, f'{what_}: units', at, ''.join(f'{what_}: the unit of {k} is {to.get(k)}, not {UNIT[k[1], k[0]]}' for k in bad[:1]))
            res.check('saved', len(u.index) == len(to) and set(to) == set(exp), f'{what_}: all units', at, f'{what_}: there are units of {sorted(set(to) - set(exp))[:1]}')
            res.check('saved', kw.get('unit_conversion_factors') == 'factors' and kw.get('orientation', 0) == 0, f'{what_}: conversion', at, f'{what_}: the losses are not converted')
            res.check('saved', kw['filepath'] == path and bool(kw.get('use_simpleindex', True)) == (path is not None), f'{what_}: file', at, f'{what_}: the losses are saved to {kw["filepath"]}')
            try:
                got = result(tr)
            except (Undecided, Stopped) as exc:
                skipped.append(f'{what_}: {exc}')
                continue
            if path is not None:
                res.check('saved', got is None, f'{what_}: result', at, f'{what_}: something is returned')
            elif isinstance(got, (tuple, list)) and len(got) == 2 and isinstance(got[0], Frame) and isinstance(got[1], Ser):
                v = dict(zip(got[0].columns.vals, zip(*got[0].rows)))
                ok = got[0].index.vals == [0, 1, 2] and set(v) == set(exp) and all(alike(list(v[k]), [-x for x in exp[k]]) for k in exp)
                res.check('saved', ok, f'{what_}: result', at, f'{what_}: the losses that are returned are not in the units of the user')
                to = dict(zip(got[1].index.vals, got[1].vals))
                res.check('saved', all(to.get(k) == UNIT[k[1], k[0]] for k in exp), f'{what_}: result, units', at, f'{what_}: the units that are returned are {to}')
            else:
                res.check('saved', isinstance(got, Obj), f'{what_}: result', at, f'{what_}: the losses and their units are not returned')


def reloaded(ctx, res, skipped):
    at = DSM + 'load_sample'
    plain = {k[:-1]: v for k, v in DSAMPLE.items()}
    twice = {('Cost', 'con.B', 'B.1', '1', '1', '2'): [1.0, 2.0, 3.0], ('Time', 'con.B', 'B.1', '1', '1', '2'): [0.5, 0.25, 0.75]}
    for what, data, exp in (('with uid', DSAMPLE, DSAMPLE), ('without uid', plain, {(*k, '0'): v for k, v in plain.items()}), ('two variables without uid', twice, {(*k, '0'): v for k, v in twice.items()}), ('too few levels', {k[:5]: v for k, v in DSAMPLE.items()}, None)):
        n = len(next(iter(data)))
        asked = []
        units = {'Cost': 'USD', 'Time': 'day'}

        def load(*a, asked=asked, **kw):
            kw = bound(ctx, 'pelicun.file_io.load_data', a, kw)
            asked.append(kw)
            if not kw.get('return_units') or kw.get('orientation', 0) != 0 or not kw.get('reindex', True):
                raise Undecided('losses')
            t = samples(data, [None] * n)
            return t, Ser(Ix(list(data), [None] * n), [units[k[0]] for k in data], 'Units')
        me = Model(a_sample='old', a__asmnt=Any(a_unit_conversion_factors='factors'), a_loss_params=None)
        try:
            tr = trace(ctx, at, {'self': me, 'filepath': 'sample.csv'}, {'load_data': load}, cls=DSM[:-1])
            raised = tr.raised.name if tr.raised else None
        except Raised as exc:
            raised = exc.name
        except (Undecided, Stopped) as exc:
            skipped.append(f'loaded, {what}: {exc}')
            continue
        if exp is None or raised:
            res.check('loaded', (exp is None) == (raised is not None), what, at, f'{what}: {raised or "no exception"} is raised')
            continue
        res.check('loaded', [(x['data_source'], x.get('unit_conversion_factors')) for x in asked] == [('sample.csv', 'factors')], f'{what}: conversion', at, f'{what}: the losses are not converted')
        got = me.a_sample
        if isinstance(got, Frame):
            have = dict(zip(got.columns.vals, zip(*got.rows)))
            ok = set(have) == set(exp) if n == 7 else {k[:-1] for k in have} == {k[:-1] for k in exp}
            res.check('loaded', ok and len(have) == len(got.columns) == len(exp), f'{what}: columns', at, f'{what}: there are losses of {sorted(have)[:2]}')
            res.check('loaded', got.columns.names == LEVELS, f'{what}: levels', at, f'{what}: the levels are {got.columns.names}')
            by = {k[:-1] if n < 7 else k: list(v) for k, v in have.items()}
            bad = [k for k, v in exp.items() if not alike(by.get(k[:-1] if n < 7 else k), v)]
            res.check('loaded', not bad, f'{what}: values', at, f'{what}: the loss of {bad[:1]} is not the one that is loaded')
        else:
            res.check('loaded', isinstance(got, Obj), f'{what}: sample', at, f'{what}: there is no sample')
        try:
            res.check('loaded', result(tr) == units, f'{what}: units', at, f'{what}: the units are {result(tr)}')
        except (Undecided, Stopped) as exc:
            skipped.append(f'loaded, {what}: {exc}')


def calculated(ctx, res, skipped):
    at = LM + 'calculate'
    damage = Frame(Ix([0, 1]), Ix([('B.1', '1', '1', '0', '1')], ['cmp', 'loc', 'dir', 'uid', 'ds']), [[1.0], [2.0]])
    comps = Frame(Ix([0, 1]), Ix([('B.1', '1', '1', '0'), ('E.1', '2', '0', '0')], ['cmp', 'loc', 'dir', 'uid']), [[3.0, 5.0], [4.0, 6.0]])
    for what, dmg, rows, exp in (('both', damage, 2, True), ('no damage', None, 2, False), ('other sizes', damage, 3, None)):
        demand = Frame(Ix(list(range(rows))), Ix([('PFA', '1', '1')], ['type', 'loc', 'dir']), [[float(i)] for i in range(rows)])
        calls = []
        marg = Frame(Ix([('B.1', '1', '1', '0')], ['cmp', 'loc', 'dir', 'uid']), Ix(['Theta_0']), [[1.0]])
        ds = Model(a_loss_params=None, a_sample=None)
        lf = Model(a_loss_params=None, a_sample=None)
        asm = Any(a_demand=Any(a_sample=demand), a_options=Any(a_demand_offset={'PFA': -1}, a_nondir_multi_dict={'ALL': 1.25}), a_asset=Any(a_cmp_sample=comps, a_cmp_marginal_params=marg), a_damage=Any(a_ds_model=Any(a_sample=dmg)))
        me = Any(a_ds_model=ds, a_lf_model=lf, a__asmnt=asm)

        class Calls(World):
            def __call__(self, tr, n, calls=calls, ds=ds):
                if n.op == 'call' and vq.bname(n) == 'calculate' and vq.callee(n) and vq.recv(n) is not None:
                    o = tr.ev(vq.recv(n))
                    a, kw = tr.args(n)
                    q = (DSM if o is ds else LFM) + 'calculate'
                    calls.append(('ds' if o is ds else 'lf', bound(ctx, q, (None, *a), kw)))
                    return None
                return super().__call__(tr, n)
        w = Calls({'self': me}, {})
        w.must = ('calculate',)
        try:
            tr = FTrace(ctx.interp(at, opaque=('Logger', DSM + 'calculate', LFM + 'calculate'), key='p40', hooks={'index': own_entry}, self_cls=LM[:-1]), w).run()
            raised = tr.raised.name if tr.raised else None
        except Raised as exc:
            raised = exc.name
        except (Undecided, Stopped) as exc:
            skipped.append(f'calculated, {what}: {exc}')
            continue
        if exp is None or raised:
            res.check('calculate', (exp is None) == (raised is not None), what, at, f'{what}: {raised or "no exception"} is raised')
            continue
        names = [x for x, _a in calls]
        res.check('calculate', names.count('lf') == 1 and names.count('ds') == int(exp), f'{what}: models', at, f'{what}: the models that are calculated are {names}')
        for x, a in calls:
            if x == 'ds':
                q = a.get('dmg_quantities')
                res.check('calculate', isinstance(q, Frame) and alike([q.columns.vals, q.rows], [damage.columns.vals, damage.rows]) and q is not damage, f'{what}: damage', at, f'{what}: the damage is not a copy of that of the assessment')
            else:
                c = a.get('cmp_sample')
                want = {k: [r[j] for r in comps.rows] for j, k in enumerate(comps.columns.vals)}
                ok = a.get('demand_sample') is demand or isinstance(a.get('demand_sample'), Frame) and alike(a['demand_sample'].rows, demand.rows)
                res.check('calculate', ok, f'{what}: demand', at, f'{what}: the demands are not those of the assessment')
                res.check('calculate', isinstance(c, dict) and {k: list(seq(v)) for k, v in c.items()} == want, f'{what}: components', at, f'{what}: the quantities are not those of the assessment')
                res.check('calculate', a.get('cmp_marginal_params') is marg, f'{what}: blocks', at, f'{what}: the parameters of the components are not passed')
                res.check('calculate', a.get('demand_offset') == {'PFA': -1} and a.get('nondirectional_multipliers') == {'ALL': 1.25}, f'{what}: options', at, f'{what}: the options are {a.get("demand_offset")}, {a.get("nondirectional_multipliers")}')


