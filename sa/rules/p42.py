"""P42: the damage model keeps its parameters, gives each block its damage state, and saves its sample."""

from __future__ import annotations

import copy
import math

from .. import vq
from ..ceval import NO, Raised, Undecided
from ..lframe import NAN, Arr, FTrace, Frame, Ix, Obj, Ser, isnan, seq
from ..trace import Stopped
from .p38 import Any, World
from .p39 import alike, bound, own_entry
from .p40 import Model, judged, result

EXPLANATION = (
    'The methods of the damage model are followed from their source on small parameter tables, performance groups, demands, capacities and damage states, '
    'and what they store, return and pass on is compared with their descriptions.'
)
DMG = 'pelicun.model.damage_model.DamageModel.'
DS = 'pelicun.model.damage_model.DamageModel_DS.'
BASE = 'pelicun.model.damage_model.DamageModel_Base.'
RULES = {
    'source': 'the parameters of a component are those of the first source that has them, and only those of the asset that are complete',
    'units': 'parameters are converted to base units once, with the unit of the component',
    'missing': 'missing are the components of the asset that have no parameters',
    'calculate': 'the damage is calculated from the demands and components of the assessment, then the tasks in their order, then the quantities',
    'saved': 'the damage is saved in the units of the components',
    'loaded': 'a damage sample that is loaded is the one that was saved',
    'batch': 'every performance group with parameters is in one batch with all its blocks',
    'states': 'the damage states of all batches are kept, each from its own capacities and demands',
    'variable': 'every limit state of every block has a capacity with its own parameters, scaled as specified, and its own damage states',
    'specification': 'a capacity adjustment that cannot be understood is rejected',
    'capacity': 'the samples are those of the variables, under the keys of the blocks',
    'evaluate': 'a block has the damage state of its highest limit state that is exceeded',
    'probability': 'the probability of a damage state is its share of the realizations that have one',
    'quantity': 'the quantities of the damage states of a performance group are those of its blocks',
    'task': 'an event changes the damage states of its targets in the realizations where it occurs',
    'complete': 'all damage states of a component are listed',
}
LEVELS = ['cmp', 'loc', 'dir', 'uid']


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for f in (parameters, calculated, saved, loaded, batches, states, variables, specification, capacities, evaluated, probabilities, quantities, tasks, completed):
        try:
            f(ctx, res, skipped)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Raised as exc:
            skipped.append(f'{f.__name__}: {exc.name} is raised')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def trace(ctx, qual, params, stand=None, opaque=(), cls=None, world=None):
    w = world or World(params, stand)
    return FTrace(ctx.interp(qual, opaque=('Logger', 'pelicun.file_io', '_convert_marginal_params', *opaque), key='p42', hooks={'index': own_entry}, self_cls=cls), w).run()


# -- parameters ------------------------------------------------------------------------
HEAD = [('Incomplete', ''), ('Demand', 'Type'), ('Demand', 'Unit'), ('LS1', 'Family'), ('LS1', 'Theta_0'), ('LS1', 'Theta_1'), ('LS2', 'Theta_0'), ('LS2', 'DamageStateWeights')]
SCALE = {'g': 10.0, 'rad': 1.0, 'half': 0.5}
TABLES = {
    'first.csv': (HEAD, {
        'B.1': [0, 'PFA', 'g', 'normal', 3.0, 0.5, 7.0, '0.5|0.5'], 'A.1': [0, 'PID', 'rad', NAN, 5.0, NAN, NAN, NAN],
        'Z.9': [0, 'PID', 'half', NAN, 1.0, NAN, 2.0, NAN], 'C.1': [1, 'PID', 'half', NAN, 1.5, NAN, 2.5, NAN],
    }),
    'second.csv': (HEAD, {
        'A.1': [0, 'PFV', 'half', 'lognormal', 15.0, 0.4, 8.0, '0.1|0.9'], 'D.1': [0, 'PFA', 'half', 'lognormal', 40.0, 0.25, NAN, NAN],
        'C.1': [0, 'PFA', 'g', 'lognormal', 40.0, 0.25, NAN, NAN],
    }),
    # without a column of incomplete components
    'third.csv': (HEAD[1:], {'E.1': ['PFA', 'g', 'lognormal', 4.0, 0.75, 6.0, NAN], 'B.1': ['PFA', 'half', 'lognormal', 44.0, 0.7, 64.0, NAN]}),
    'loss.csv': ([('DV', 'Unit'), ('LossFunction', 'Theta_0')], {'E.1': ['USD', '1,2|3,4']}),
}
CMP = ['A.1', 'B.1', 'C.1', 'D.1', 'E.1', 'X.5', 'W.2']
LOADS = {
    'all': ['first.csv', 'second.csv', 'third.csv'], 'other order': ['third.csv', 'second.csv', 'first.csv'], 'one': ['third.csv'], 'one, with incomplete ones': ['first.csv'],
    'two': ['second.csv', 'first.csv'], 'no source': [],
}


def converter(ctx, calls):
    def convert(*a, **kw):
        kw = bound(ctx, 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params', (None, *a), kw)
        m, u = kw['marginal_params'], kw['units']
        if kw.get('arg_units') is not None or not isinstance(m, Frame) or not isinstance(u, Ser) or 'Theta_0' not in m.columns.vals:
            raise Undecided('conversion')
        calls.append(list(m.columns.vals))
        to = dict(zip(u.index.vals, u.vals))
        rows = [list(r) for r in m.rows]
        for j in (j for j, c in enumerate(m.columns.vals) if c in ('Theta_0', 'Theta_1')):
            for k, r in zip(m.index.vals, rows):
                if not isnan(r[j]) and r[j] is not None and not isnan(to[k]):
                    r[j] *= SCALE[to[k]]
        return Frame(Ix(m.index.vals, m.index.names), Ix(m.columns.vals, m.columns.names), rows)
    return convert


def table_of(name):
    head, rows = TABLES[name]
    return Frame(Ix(list(rows), ['ID']), Ix(list(head)), [list(r) for r in rows.values()])


def parameters(ctx, res, skipped):
    at = DMG + 'load_model_parameters'
    for what, names in LOADS.items():
        exp, seen = {}, set()
        for nm in names:
            head, rows = TABLES[nm]
            for k, r in rows.items():
                exp.setdefault(k, dict(zip(head, r)))
        exp = {k: r for k, r in exp.items() if k in CMP and r.get(('Incomplete', '')) != 1}
        calls, asked, sub = [], [], []
        conv = converter(ctx, calls)
        ds = Model(a_damage_params=None, a_sample=None, a__asmnt=Any(), m__convert_marginal_params=conv)
        me = Any(a_ds_model=ds, a__asmnt=Any(a_log='log'), a_missing_components=['old'])

        def load(*a, asked=asked, **kw):
            kw = bound(ctx, 'pelicun.file_io.load_data', a, kw)
            asked.append(kw['data_source'])
            if kw.get('orientation', 0) != 1 or kw.get('reindex', True) or kw.get('return_units') or kw.get('unit_conversion_factors') is not None:
                res.check('source', False, f'{what}: rows', at, f'{what}: the table is not read as parameters in rows, with its index and values as they are')
                raise Stopped('load_data')
            return table_of(kw['data_source'][5:])

        def substitute(paths, sub=sub):
            return ['full/' + x for x in paths]
        tr = judged(skipped, res, 'source', what, at, lambda: trace(ctx, at, {'self': me, 'data_paths': list(names), 'cmp_set': {*CMP}, 'warn_missing': True}, {'load_data': load, 'substitute_default_path': substitute, '_convert_marginal_params': conv}, cls=DMG[:-1]))
        if tr is None:
            continue
        got = ds.a_damage_params
        if exp:
            if not isinstance(got, Frame):
                res.check('source', got is not None, what, at, f'{what}: there are no parameters')
                continue
            have = {k: dict(zip(got.columns.vals, r)) for k, r in zip(got.index.vals, got.rows)}
            res.check('source', set(have) == set(exp) and len(got.index) == len(exp), what, at, f'{what}: there are parameters of {sorted(have)}, not of {sorted(exp)}')
            for k, r in exp.items():
                if k not in have:
                    continue
                f = SCALE[r['Demand', 'Unit']]
                bad = [c for c in r if c[1] not in ('Theta_0', 'Theta_1', 'Unit') and c[0] != 'Incomplete' and (c not in have[k] or not alike(have[k][c], r[c]))]
                res.check('source', not bad, f'{what}: {k}', at, f'{what}: {bad[:1]} of {k} is {[have[k].get(c) for c in bad[:1]]}')
                bad = [c for c in r if c[1] in ('Theta_0', 'Theta_1') and (c not in have[k] or not alike(have[k][c], r[c] * f))]
                res.check('units', not bad, f'{what}: {k}', at, f'{what}: {bad[:1]} of {k} is {[have[k].get(c) for c in bad[:1]]}')
        want = sorted(x for x in CMP if x not in exp)
        miss = me.stored.get('missing_components', me.a_missing_components)
        if isinstance(miss, (list, tuple, set)):
            res.check('missing', sorted(miss) == want, what, at, f'{what}: missing are {miss}, not {want}')
        res.check('source', asked == ['full/' + x for x in names], f'{what}: sources', at, f'{what}: {asked} is read')
    for names in (['loss.csv'], ['first.csv', 'loss.csv']):
        ds = Model(a_damage_params=None, a_sample=None, a__asmnt=Any(), m__convert_marginal_params=converter(ctx, []))
        me = Any(a_ds_model=ds, a__asmnt=Any(a_log='log'))
        rejected(ctx, res, skipped, 'source', f'{names}', at, {'self': me, 'data_paths': names, 'cmp_set': {*CMP}, 'warn_missing': True}, {'load_data': lambda *a, **_k: table_of(a[0]), 'substitute_default_path': list, '_convert_marginal_params': converter(ctx, [])}, DMG)


def rejected(ctx, res, skipped, rule, what, at, params, stand, cls, names=('ValueError',), opaque=()):
    try:
        tr = trace(ctx, at, params, stand, opaque, cls=cls[:-1])
        raised = tr.raised.name if tr.raised else None
        if raised is None:
            tr.ev(tr.ip.ret)
    except Raised as exc:
        raised = exc.name
    except (Undecided, Stopped) as exc:
        skipped.append(f'{what}: {exc}')
        return
    res.check(rule, raised in names, what, at, f'{what}: {raised or "no exception"} is raised')


def calculated(ctx, res, skipped):
    at = DMG + 'calculate'
    pgs = [('A.1', '1', '1', '0'), ('B.1', '2', '0', '0'), ('A.1', '2', '1', '0')]
    comps = Frame(Ix([0, 1]), Ix(pgs, LEVELS), [[3.0, 5.0, 7.0], [4.0, 6.0, 8.0]])
    demand = Frame(Ix([0, 1, 2]), Ix([('PFA', '1', '1')], ['type', 'loc', 'dir']), [[1.0], [2.0], [3.0]])
    full = Frame(Ix([*pgs, ('C.1', '1', '1', '0')], LEVELS), Ix(['Theta_0', 'Blocks']), [[1.0, 2.0], [1.5, 1.0], [3.0, 4.0], [1.0, 3.0]])
    plain = Frame(Ix(pgs, LEVELS), Ix(['Theta_0']), [[1.0], [1.5], [3.0]])
    process = {'2_B.1': {'DS1': 'A.1_DS2'}, 'no_number': {'DS1': 'B.1_NA'}, '10_A.1': {'DS2': 'B.1_NA'}, '1_A.1': {'DS1': 'B.1_DS1'}}
    order = ['1_A.1', '2_B.1', '10_A.1', 'no_number']
    for what, marg, dp, listed, extra in (
        ('blocks', full, None, False, {}), ('no blocks', plain, None, False, {'block_batch_size': 7}), ('a process', full, process, False, {'scaling_specification': {'A.1-1-1': {'ALL': '*2'}}}),
        ('all damage states', full, None, True, {}), ('a process and all damage states', plain, process, True, {'block_batch_size': 3}),
    ):
        calls = []

        def note(name, out, q, calls=calls):
            def f(*a, **kw):
                calls.append((name, bound(ctx, q, (None, *a), kw)))
                return out
            return f
        qnt, every = Frame(Ix([0]), Ix([(*pgs[0], '1')], [*LEVELS, 'ds']), [[1.0]]), Frame(Ix([0]), Ix([(*pgs[0], '1')], [*LEVELS, 'ds']), [[2.0]])
        stand = {
            'obtain_ds_sample': note('states', None, DS + 'obtain_ds_sample'), 'perform_dmg_task': note('task', None, DS + 'perform_dmg_task'),
            'prepare_dmg_quantities': note('quantities', qnt, DS + 'prepare_dmg_quantities'), 'complete_ds_cols': note('complete', every, DS + 'complete_ds_cols'),
        }
        ds = Model(a_sample='old')
        me = Any(a_ds_model=ds, a_missing_components=['Q.1'], a__asmnt=Any(
            a_demand=Any(a_sample=demand), a_options=Any(a_nondir_multi_dict={'ALL': 1.25}, a_list_all_ds=listed), a_asset=Any(a_cmp_sample=comps, a_cmp_marginal_params=marg)))
        args = {'block_batch_size': 1000, 'scaling_specification': None, **extra}
        tr = judged(skipped, res, 'calculate', what, at, lambda: trace(ctx, at, {'self': me, 'dmg_process': copy.deepcopy(dp), **args}, stand, tuple(DS + x for x in stand), cls=DMG[:-1]))
        if tr is None:
            continue
        have = [x for x, _a in calls]
        want = ['states', *(['task'] * len(order) if dp else []), 'quantities', *(['complete'] if listed else [])]
        res.check('calculate', have == want, f'{what}: steps', at, f'{what}: the steps are {have}')
        for x, a in calls:
            if x == 'states':
                b = a.get('component_blocks')
                exp = {k: int(r[-1]) for k, r in zip(full.index.vals, full.rows)} if marg is full else dict.fromkeys(pgs, 1)
                ok = isinstance(b, Frame) and b.columns.vals == ['Blocks'] and {k: r[0] for k, r in zip(b.index.vals, b.rows)} == exp and len(b.index) == len(exp)
                res.check('calculate', ok or not isinstance(b, (Frame, Ser)), f'{what}: blocks', at, f'{what}: the blocks of the performance groups are not those of the asset')
                ok = isinstance(a.get('demand_sample'), Frame) and alike([a['demand_sample'].columns.vals, a['demand_sample'].rows], [demand.columns.vals, demand.rows])
                res.check('calculate', ok, f'{what}: demand', at, f'{what}: the demands are not those of the assessment')
                bad = [k for k, v in (*args.items(), ('missing_components', ['Q.1']), ('nondirectional_multipliers', {'ALL': 1.25})) if a.get(k) != v]
                res.check('calculate', not bad, f'{what}: arguments', at, ''.join(f'{what}: {k} is {a.get(k)}' for k in bad[:1]))
            elif x == 'quantities':
                res.check('calculate', a.get('component_sample') is comps and a.get('component_marginal_parameters') is marg, f'{what}: components', at, f'{what}: the quantities are not those of the components of the asset')
                res.check('calculate', a.get('dropzero') is False, f'{what}: undamaged', at, f'{what}: undamaged quantities are not kept')
            elif x == 'complete':
                res.check('calculate', a.get('dmg_sample') is qnt, f'{what}: completed', at, f'{what}: other quantities are completed')
        got = [tuple(a['task']) for x, a in calls if x == 'task']
        res.check('calculate', got == [(k, process[k]) for k in order] if dp else not got, f'{what}: tasks', at, f'{what}: the tasks are {[x[0] for x in got]}')
        res.check('calculate', ds.a_sample is (every if listed else qnt), f'{what}: sample', at, f'{what}: the sample is not the one that is calculated')


SAMPLE = {
    ('B.1', '1', '1', '0', '0'): [1.0, 2.0, 3.0], ('B.1', '1', '1', '0', '2'): [4.0, NAN, 6.0], ('A.1', '1', '2', '0', '1'): [10.0, 20.0, 31.0], ('A.10', '2', '2', '7', '1'): [0.25, 0.5, 0.75],
}
UNITS = {'A.1': 'ea', 'B.1': 'ft', 'A.10': 'kg', 'X.9': 'm'}


def sample_of(data, levels):
    return Frame(Ix([0, 1, 2]), Ix(list(data), levels), [[data[c][i] for c in data] for i in range(3)])


def damage_of(present):
    ds = Model(a_sample=sample_of(SAMPLE, [*LEVELS, 'ds']) if present else None)
    return Any(a_ds_model=ds, a__asmnt=Any(a_unit_conversion_factors='factors', a_log='log', a_asset=Any(a_cmp_units=Ser(Ix(list(UNITS)), list(UNITS.values()), 'Units'))))


def saved(ctx, res, skipped, at=DMG + 'save_sample', owner=damage_of, cls=DMG[:-1], SAMPLE=SAMPLE, UNITS=UNITS, without=True):  # noqa: N803
    for present in (True, False) if without else (True,):
        for path in (None, 'dir/sample.csv'):
            for with_units in (True, False):
                what = f'{"sample" if present else "no sample"}, {"returned" if path is None else "file"}{", with units" if with_units else ""}'
                me = owner(present)
                asked = []

                def save(*a, asked=asked, **kw):
                    kw = bound(ctx, 'pelicun.file_io.save_to_csv', a, kw)
                    asked.append(kw)
                    t, u = kw['data'], kw.get('units')
                    if not isinstance(t, Frame) or not isinstance(u, Ser) and u is not None:
                        raise Undecided('saved')
                    if u is None:
                        u = Ser(Ix([]), [])
                    if kw['filepath'] is not None:
                        return None
                    to = dict(zip(u.index.vals, u.vals))
                    order = sorted(range(len(t.columns)), key=lambda j: t.columns.vals[j])
                    cols = Ix([t.columns.vals[j] for j in order], t.columns.names)
                    return Frame(Ix(['Units', *t.index.vals]), cols, [[to.get(c) for c in cols.vals], *[[-r[j] for j in order] for r in t.rows]])
                tr = judged(skipped, res, 'saved', what, at, lambda: trace(ctx, at, {'self': me, 'filepath': path, 'save_units': with_units}, {'save_to_csv': save, 'Path': lambda x: x}, cls=cls))
                if tr is None:
                    continue
                if not present:
                    try:
                        res.check('saved', result(tr) is None and not asked, what, at, f'{what}: something is saved')
                    except (Undecided, Stopped) as exc:
                        skipped.append(f'{what}: {exc}')
                    continue
                res.check('saved', len(asked) == 1, what, at, f'{what}: {len(asked)} samples are saved')
                for kw in asked[:1]:
                    t, u = kw['data'], kw['units'] if kw.get('units') is not None else Ser(Ix([]), [])
                    have = dict(zip(t.columns.vals, zip(*t.rows)))
                    bad = [k for k in SAMPLE if k not in have or not alike(list(have[k]), SAMPLE[k])]
                    res.check('saved', not bad and len(t.columns) == len(SAMPLE), f'{what}: quantities', at, f'{what}: the quantities {bad[:1]} are not those of the sample')
                    to = {k: v for k, v in zip(u.index.vals, u.vals) if k in SAMPLE}
                    bad = [k for k in SAMPLE if to.get(k) != UNITS[k[0]]]
                    res.check('saved', not bad, f'{what}: units', at, ''.join(f'{what}: the unit of {k} is {to.get(k)}, not {UNITS[k[0]]}' for k in bad[:1]))
                    res.check('saved', kw.get('unit_conversion_factors') == 'factors' and kw.get('orientation', 0) == 0, f'{what}: conversion', at, f'{what}: the quantities are not converted')
                    res.check('saved', kw['filepath'] == path and bool(kw.get('use_simpleindex', True)) == (path is not None), f'{what}: file', at, f'{what}: the quantities are saved to {kw["filepath"]}')
                try:
                    got = result(tr)
                except (Undecided, Stopped) as exc:
                    skipped.append(f'{what}: {exc}')
                    continue
                if path is not None:
                    res.check('saved', got is None, f'{what}: result', at, f'{what}: something is returned')
                    continue
                q, u = got if with_units and isinstance(got, (tuple, list)) and len(got) == 2 else (got, None)
                if isinstance(q, Frame):
                    v = dict(zip(q.columns.vals, zip(*q.rows)))
                    ok = q.index.vals == list(range(len(next(iter(SAMPLE.values()))))) and set(v) == set(SAMPLE) and all(alike(list(v[k]), [-x for x in SAMPLE[k]]) for k in SAMPLE)
                    res.check('saved', ok, f'{what}: result', at, f'{what}: the quantities that are returned are not in the units of the user')
                else:
                    res.check('saved', isinstance(q, Obj), f'{what}: result', at, f'{what}: the quantities are not returned')
                if with_units:
                    to = dict(zip(u.index.vals, u.vals)) if isinstance(u, Ser) else {}
                    res.check('saved', not isinstance(u, Ser) and isinstance(u, Obj) or all(to.get(k) == UNITS[k[0]] for k in SAMPLE), f'{what}: result, units', at, f'{what}: the units that are returned are {to}')


def loaded(ctx, res, skipped):
    at = DMG + 'load_sample'
    asked = []

    def load(*a, **kw):
        kw = bound(ctx, 'pelicun.file_io.load_data', a, kw)
        asked.append(kw)
        if kw.get('orientation', 0) != 0 or not kw.get('reindex', True):
            raise Undecided('sample')
        t = sample_of(SAMPLE, [None] * 5)
        return (t, Ser(Ix(list(SAMPLE), [None] * 5), [UNITS[k[0]] for k in SAMPLE], 'Units')) if kw.get('return_units') else t
    ds = Model(a_sample='old')
    me = Any(a_ds_model=ds, a__asmnt=Any(a_unit_conversion_factors='factors', a_log='log'))
    tr = judged(skipped, res, 'loaded', 'load', at, lambda: trace(ctx, at, {'self': me, 'filepath': 'sample.csv'}, {'load_data': load}, cls=DMG[:-1]))
    if tr is None:
        return
    res.check('loaded', [(x['data_source'], x.get('unit_conversion_factors')) for x in asked] == [('sample.csv', 'factors')], 'conversion', at, 'the quantities that are loaded are not converted')
    got = ds.a_sample
    if isinstance(got, Frame):
        v = dict(zip(got.columns.vals, zip(*got.rows)))
        res.check('loaded', set(v) == set(SAMPLE) and all(alike(list(v[k]), SAMPLE[k]) for k in SAMPLE), 'values', at, 'the quantities are not those that are loaded')
        res.check('loaded', got.columns.names == [*LEVELS, 'ds'], 'levels', at, f'the levels are {got.columns.names}')
    else:
        res.check('loaded', isinstance(got, Obj), 'sample', at, 'there is no sample')


BLOCKS = {
    ('B.1', '1', '1', '0'): 4, ('A.1', '1', '1', '0'): 2, ('A.1', '2', '1', '0'): 3, ('M.1', '2', '1', '0'): 50, ('A.1', '1', '2', '1'): 1, ('B.1', '2', '2', '0'): 9, ('C.1', '1', '1', '0'): 6, ('N.1', '9', '0', '0'): 2,
    ('B.1', '10', '2', '0'): 1,
}


def batches(ctx, res, skipped):
    at = BASE + '_get_pg_batches'
    params = Frame(Ix(['A.1', 'B.1', 'C.1']), Ix([('LS1', 'Theta_0')]), [[1.0], [2.0], [3.0]])
    for size in (1, 3, 5, 7, 10, 26, 1000):
        for what, left in (('all', []), ('missing', ['M.1', 'N.1'])):
            me = Any(a_damage_params=params, a__asmnt=Any())
            given = BLOCKS
            b = Frame(Ix(list(given), LEVELS), Ix(['Blocks']), [[v] for v in given.values()])
            tr = judged(skipped, res, 'batch', f'{what}, {size}', at, lambda: trace(ctx, at, {'self': me, 'component_blocks': b, 'block_batch_size': size, 'missing_components': left}, cls=DS[:-1]))
            if tr is None:
                continue
            try:
                got = result(tr)
            except (Undecided, Stopped) as exc:
                skipped.append(f'batches, {what}, {size}: {exc}')
                continue
            what = f'{what}, batches of {size}'
            if not isinstance(got, Frame):
                res.check('batch', isinstance(got, Obj), what, at, f'{what}: there are no batches')
                continue
            exp = {k: v for k, v in given.items() if k[0] not in ('M.1', 'N.1')}
            have = [(k[1:], r[got.columns.vals.index('Blocks')]) for k, r in zip(got.index.vals, got.rows)]
            res.check('batch', dict(have) == exp and len(have) == len(exp), f'{what}: groups', at, f'{what}: the blocks of the performance groups are not those that are given')
            res.check('batch', got.index.names == ['Batch', *LEVELS], f'{what}: levels', at, f'{what}: the levels are {got.index.names}')
            total, count = {}, {}
            for k, r in zip(got.index.vals, got.rows):
                total[k[0]] = total.get(k[0], 0) + r[got.columns.vals.index('Blocks')]
                count[k[0]] = count.get(k[0], 0) + 1
            res.check('batch', all(total[k] <= size or count[k] == 1 for k in total), f'{what}: size', at, f'{what}: there are {total} blocks in the batches')
            res.check('batch', size < sum(exp.values()) or len(total) == 1, f'{what}: number', at, f'{what}: there are {len(total)} batches')


def states(ctx, res, skipped):
    at = DS + 'obtain_ds_sample'
    pgs = [(1, 'A.1', '1', '1', '0'), (1, 'B.1', '2', '1', '0'), (2, 'A.1', '2', '1', '0'), (3, 'C.1', '1', '0', '0')]
    blocks = Frame(Ix(pgs, ['Batch', *LEVELS]), Ix(['Blocks']), [[2], [1], [1], [3]])
    dcols = [('PFA', '1', '1'), ('PFA', '1', '2'), ('PID', '1', '1'), ('PFA', '2', '1')]
    demand = Frame(Ix([0, 1]), Ix(dcols, ['type', 'loc', 'dir']), [[1.0, 2.0, 3.0, 4.0], [5.0, 6.0, 7.0, 8.0]])
    params = Frame(Ix(['A.1', 'B.1', 'C.1']), Ix([('LS1', 'Theta_0')]), [[1.0], [2.0], [3.0]])
    calls = []

    def pgb(a, **kw):
        calls.append(('batches', bound(ctx, BASE + '_get_pg_batches', (None, *a), kw)))
        return blocks
    groups = {1: pgs[:2], 2: pgs[2:3], 3: pgs[3:]}

    def which(p):
        for i, g in groups.items():
            if isinstance(p, Frame) and p.index.vals == [x[1:] for x in g] and p.columns.vals == ['Blocks']:
                return i
        raise Undecided('performance groups')

    def generate(a, **kw):
        kw = bound(ctx, DS + '_generate_dmg_sample', (None, *a), kw)
        i = which(kw['pgb'])
        calls.append((i, 'generate', kw))
        return (f'capacity {i}', f'lsds {i}')

    def required(a, **kw):
        kw = bound(ctx, 'pelicun.model.demand_model._get_required_demand_type', a, kw)
        i = which(kw['pgb'])
        calls.append((i, 'required', kw))
        return {('EDP', i): [x[1:] for x in groups[i]], ('EDP', 0): ['x']}

    def verify(a, **kw):
        kw = bound(ctx, 'pelicun.model.demand_model._verify_edps_available', a, kw)
        calls.append((max(x[1] for x in kw['required']), 'verify', kw))

    def assemble(a, **kw):
        kw = bound(ctx, 'pelicun.model.demand_model._assemble_required_demand_data', a, kw)
        i = max(x[1] for x in kw['required_edps'])
        calls.append((i, 'assemble', kw))
        return f'demand {i}'

    def evaluate(a, **kw):
        kw = bound(ctx, DS + '_evaluate_damage_state', (None, *a), kw)
        i = int(str(kw['demand_dict'])[-1])
        calls.append((i, 'evaluate', kw))
        cols = [(*x[1:], '1') for x in groups[i]]
        return Frame(Ix([0, 1]), Ix(cols, [*LEVELS, 'block']), [[10 * i + j for j in range(len(cols))], [20 * i + j for j in range(len(cols))]])
    stand = {k: (lambda f: lambda *a, **kw: f(a, **kw))(f) for k, f in (('_get_pg_batches', pgb), ('_generate_dmg_sample', generate), ('_get_required_demand_type', required), ('_verify_edps_available', verify), ('_assemble_required_demand_data', assemble), ('_evaluate_damage_state', evaluate))}
    me = Model(a_ds_sample='old', a_damage_params=params, a__asmnt=Any(a_log=Any(a_verbose=False), a_options=Any(a_demand_offset={'PFA': -1, 'PFV': -1})), **{'m_' + k: v for k, v in stand.items()})
    given = {'demand_sample': demand, 'component_blocks': 'blocks', 'block_batch_size': 5, 'scaling_specification': {'A.1-1-1': {'ALL': '*2'}}, 'missing_components': ['M.1'], 'nondirectional_multipliers': {'ALL': 1.25}}
    tr = judged(skipped, res, 'states', 'batches', at, lambda: trace(ctx, at, {'self': me, **given}, stand, tuple(stand), cls=DS[:-1]))
    if tr is None:
        return
    for kw in (x[1] for x in calls if x[0] == 'batches'):
        bad = [k for k in ('component_blocks', 'block_batch_size', 'missing_components') if kw.get(k) != given[k]]
        res.check('states', not bad, 'batches', at, f'{bad[:1]} of the batches is not the one that is given')
    for i in groups:
        steps = [x[1] for x in calls if x[0] == i]
        res.check('states', sorted(steps) == sorted(['generate', 'required', 'verify', 'assemble', 'evaluate']), f'batch {i}: steps', at, f'batch {i}: the steps are {steps}')
        res.check('states', 'verify' in steps and 'assemble' in steps and steps.index('verify') < steps.index('assemble'), f'batch {i}: order', at, f'batch {i}: demands are used before they are verified')
        for _i, step, kw in (x for x in calls if x[0] == i):
            if step == 'generate':
                res.check('states', kw['sample_size'] == 2 and kw.get('scaling_specification') == given['scaling_specification'], f'batch {i}: capacities', at, f'batch {i}: the size is {kw["sample_size"]} and the adjustment {kw.get("scaling_specification")}')
            elif step == 'required':
                res.check('states', kw['model_parameters'] is params and kw['demand_offset'] == {'PFA': -1, 'PFV': -1}, f'batch {i}: demand types', at, f'batch {i}: the demand types are not those of the parameters')
            elif step == 'verify':
                av = {tuple(k): sorted(v) for k, v in kw['available_edps'].items()}
                res.check('states', av == {('PFA', '1'): ['1', '2'], ('PID', '1'): ['1'], ('PFA', '2'): ['1']}, f'batch {i}: available', at, f'batch {i}: available are {av}')
                res.check('states', set(kw['required']) == {('EDP', i), ('EDP', 0)}, f'batch {i}: required', at, f'batch {i}: required are {kw["required"]}')
            elif step == 'assemble':
                res.check('states', set(kw['required_edps']) == {('EDP', i), ('EDP', 0)} and kw['demand_sample'] is demand and kw['nondirectional_multipliers'] == {'ALL': 1.25}, f'batch {i}: demands', at, f'batch {i}: the demands are not those that are required')
            elif step == 'evaluate':
                ok = (kw['capacity_sample'], kw['lsds_sample']) == (f'capacity {i}', f'lsds {i}') and set(kw['required_edps']) == {('EDP', i), ('EDP', 0)}
                res.check('states', ok, f'batch {i}: evaluated', at, f'batch {i}: {kw["capacity_sample"]} and {kw["lsds_sample"]} are evaluated')
    got = me.a_ds_sample
    if isinstance(got, Frame):
        exp = {(*x[1:], '1'): [10 * i + j, 20 * i + j] for i, g in groups.items() for j, x in enumerate(g)}
        have = {k: [r[j] for r in got.rows] for j, k in enumerate(got.columns.vals)}
        res.check('states', have == exp and len(got.columns) == len(exp), 'sample', at, f'the damage states are {have}')
    else:
        res.check('states', isinstance(got, Obj), 'sample', at, 'there are no damage states')


def probabilities(ctx, res, skipped):
    at = DS + 'probabilities'
    cols = {('B.1', '1', '1', '0', '1'): [0, 1, 1, 2], ('A.1', '1', '1', '0', '1'): [-1, -1, 3, 0], ('A.1', '1', '1', '0', '2'): [1, 1, 1, 1], ('C.1', '1', '1', '0', '1'): [-1, -1, -1, -1]}
    s = Frame(Ix([0, 1, 2, 3]), Ix(list(cols), [*LEVELS, 'block']), [[v[i] for v in cols.values()] for i in range(4)])
    tr = judged(skipped, res, 'probability', 'blocks', at, lambda: trace(ctx, at, {'self': Any(a_ds_sample=s)}, cls=DS[:-1]))
    if tr is None:
        return
    got = result(tr)
    if not isinstance(got, Frame):
        res.check('probability', isinstance(got, Obj), 'blocks', at, 'there are no probabilities')
        return
    have = {k: {c: v for c, v in zip(got.columns.vals, r) if not isnan(v)} for k, r in zip(got.index.vals, got.rows)}
    for k, v in cols.items():
        known = [x for x in v if x != -1]
        exp = {x: known.count(x) / len(known) for x in known}
        res.check('probability', k in have and {c: p for c, p in have[k].items() if p} == exp, f'{k}', at, f'the probabilities of {k} are {have.get(k)}, not {exp}')
    res.check('probability', len(got.index) == len(cols), 'all blocks', at, f'there are {len(got.index)} blocks')


class Registry(Any):
    """Random variables that are added."""

    def __init__(self):
        super().__init__()
        self.rvs = []

    @property
    def a_RV(self):
        return {x['name']: x for x in self.rvs}

    def m_add_RV(self, rv):
        if not isinstance(rv, dict):
            raise Undecided('random variable')
        self.rvs.append(rv)


class Variables(World):
    """Random variables are the settings that they are made with."""

    def __init__(self, params):
        super().__init__(params)
        self.must = ('add_RV',)
        self.registries, self.made = {}, {}

    def __call__(self, tr, n):
        if n.op == 'call' and n.args[0].op == 'call' and vq.bname(n.args[0]) == 'rv_class_map':
            (f,), _kw = tr.args(n.args[0])
            a, kw = tr.args(n)
            if a:
                raise Undecided('random variable')
            return self.variable(tr, n, {'class': f, **kw})
        if n.op == 'new' and str(n.args[0]).endswith('RandomVariableRegistry'):
            return self.registries.setdefault(n, Registry())
        if n.op == 'new' and str(n.args[0]).endswith(('DeterministicRandomVariable', 'MultinomialRandomVariable')):
            made = [e.node for e in tr.ip.events if e.kind == 'call' and e.node.op == 'call' and e.node.args[0].op == 'clsref' and e.node.args[0].args[0] == n.args[0] and e.node.site == n.site]
            if len(made) != 1:
                raise Undecided('random variable')
            call = made[0]
            kw = {k: v for k, v in call.args[2] if k != 'f_map'}
            if call.args[1]:
                raise Undecided('random variable')
            out = {'class': 'deterministic' if str(n.args[0]).endswith('DeterministicRandomVariable') else 'multinomial', **{k: tr.ev(v) for k, v in kw.items()}}
            fm = dict(call.args[2]).get('f_map')
            if fm is not None:
                out['states'] = [int(self.mapped(tr, call, fm, x)) for x in range(len(seq(out['theta'])))]
            return self.variable(tr, n, out)
        return super().__call__(tr, n)

    def variable(self, _tr, n, rv):
        # the same variable as long as it has the same name
        return self.made.setdefault((n, rv.get('name')), {**rv, 'theta': copy.deepcopy(rv.get('theta'))})

    @staticmethod
    def mapped(tr, call, fm, x):
        if not vq.xcall(fm, 'partial'):
            return tr.applied(call, fm, x)
        f = fm.args[1][0]
        found = list(dict.fromkeys(r for v, r in tr.ip.cb_results.get(fm, ()) if v is f))
        if len(found) != 1:
            raise Undecided('function that is passed')
        given = [tr.ev(v) for v in fm.args[1][1:]]
        kw = {k: tr.ev(v) for k, v in fm.args[2]}
        old = dict(tr.env)
        try:
            for c in (c for c in vq.walk(found[0]) if c.op == 'cbparam' and c.args[0] is fm):
                tr.env[c] = kw[c.args[2]] if c.args[2] in kw else given[c.args[1]] if c.args[1] < len(given) else x
            return tr.ev(found[0])
        finally:
            tr.env.clear()
            tr.env.update(old)


FRAGILITY = {
    'A.1': {'LS1': {'Family': 'lognormal', 'Theta_0': 2.0, 'Theta_1': 0.4, 'TruncateLower': 0.5}, 'LS2': {'Family': 'normal', 'Theta_0': 3.0, 'Theta_1': 0.3, 'TruncateUpper': 9.0, 'DamageStateWeights': '0.25 | 0.5| 0.25'}, 'LS3': {'Family': 'lognormal', 'Theta_0': 8.0, 'Theta_1': 0.2}},
    'B.1': {'LS2': {'Theta_0': 5.0}, 'LS10': {'Family': 'weibull', 'Theta_0': 6.0, 'Theta_1': 1.5, 'DamageStateWeights': '0.1|0.9'}, 'LS3': {'Family': '', 'Theta_0': 5.5}},
    'C.1': {'LS1': {'Family': 'multilinear_CDF', 'Theta_0': '1,2,4|0,0.5,1'}},
}
PGS = {('A.1', '1', '2', '0'): 2, ('B.1', '3', '0', '7'): 1, ('A.1', '4', '2', '5'): 1, ('C.1', '1', '1', '0'): 2, ('Q.1', '1', '1', '0'): 1, ('B.1', '1', '0', '0'): 3}
ADJUST = {
    'none': None, 'empty': {},
    'all': {'A.1-1-2': {'ALL': '*2.0'}}, 'one limit state': {'A.1-1-2': {'LS2': '+1.5'}}, 'several': {'A.1-4-2': {'LS1': '-0.5', 'LS3': '/4'}, 'B.1-1-0': {'ALL': '/2'}},
    'another place': {'A.1-9-9': {'ALL': '*2.0'}}, 'places with the same beginning': {'A.1-1-20': {'ALL': '*2.0'}, 'A.1-4-2-6': {'ALL': '+3'}, 'A.1': {'ALL': '*4'}, 'B.1-1': {'ALL': '*5'}, '1-1-2': {'ALL': '/8'}}, 'per realization': {'A.1-1-2': {'ALL': ['*2.0', '+1', '-0.25']}, 'A.1-4-2': {'LS2': ['*3.0', '/2']}}, 'one in a list': {'A.1-4-2': {'ALL': ['*3.0']}},
    'multilinear': {'C.1-1-1': {'ALL': '*2'}, 'A.1-1-2': {'LS10': '*7', 'LS3': '*0.5'}}, 'the tenth': {'B.1-3-0': {'LS1': '*7', 'LS2': '-1'}}, 'below zero': {'B.1-1-0': {'LS2': '-9'}, 'A.1-4-2': {'LS2': ['-4', '*-2']}},
}


def fragility():
    head = [(ls, x) for ls in ('LS10', 'LS2', 'LS1', 'LS3') for x in ('Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper', 'DamageStateWeights')]
    head.insert(0, ('Demand', 'Type'))
    return Frame(Ix(list(FRAGILITY), ['ID']), Ix(head), [['PFA', *[v.get(ls, {}).get(x, NAN) for ls, x in head[1:]]] for v in FRAGILITY.values()])


def changed(v, op):
    return {'+': v + float(op[1:]), '-': v - float(op[1:]), '*': v * float(op[1:]), '/': v / float(op[1:])}[op[0]]


def capacity_of(pgs, spec):
    """What the variables are, by name."""
    cap, lsds = {}, {}
    for pg, blocks in pgs.items():
        adj = (spec or {}).get('-'.join(pg[:3]), {})
        for b in range(1, blocks + 1):
            ds, first = 0, None
            for i in (1, 2, 3, 10):
                p = FRAGILITY.get(pg[0], {}).get(f'LS{i}')
                if not p:
                    continue
                fam = p.get('Family') or 'deterministic'
                ops = adj.get('ALL', adj.get(f'LS{i}')) if fam in ('normal', 'lognormal', 'deterministic') else None
                th = [p['Theta_0'], p.get('Theta_1', NAN)]
                if fam == 'multilinear_CDF':
                    x, y = th[0].split('|')
                    th = [[float(u), float(v)] for u, v in zip(x.split(','), y.split(','))]
                elif ops is not None:
                    ops = ops if isinstance(ops, list) else [ops]
                    th = [[changed(th[0], o), *th[1:]] for o in ops] if len(ops) > 1 else [changed(th[0], ops[0]), *th[1:]]
                name = f'{"-".join(pg)}-{b}-{i}'
                cap['FRG-' + name] = (fam, th, [p.get('TruncateLower', NAN), p.get('TruncateUpper', NAN)], first)
                first = first or 'FRG-' + name
                w = p.get('DamageStateWeights')
                if w is None:
                    ds += 1
                    lsds['LSDS-' + name] = ('deterministic', [ds], None)
                else:
                    w = [float(x) for x in w.split('|')]
                    lsds['LSDS-' + name] = ('multinomial', w, list(range(ds + 1, ds + 1 + len(w))))
                    ds += len(w)
    return cap, lsds


def nested(a):
    return a.m_tolist() if isinstance(a, Arr) else [nested(x) if isinstance(x, (list, tuple, Arr)) else x for x in a]


def variables(ctx, res, skipped):
    at = DS + '_create_dmg_RVs'
    for what, spec in ADJUST.items():
        what = f'adjustment: {what}'
        w = Variables({'self': Any(a_damage_params=fragility(), a__asmnt=Any(a_log=Any(a_verbose=False), a_options=Any(a_rng='rng'))), 'pgb': Frame(Ix(list(PGS), LEVELS), Ix(['Blocks']), [[v] for v in PGS.values()]), 'scaling_specification': copy.deepcopy(spec)})
        tr = judged(skipped, res, 'variable', what, at, lambda: trace(ctx, at, {}, opaque=('RandomVariableRegistry', 'rv_class_map', 'DeterministicRandomVariable', 'MultinomialRandomVariable'), cls=DS[:-1], world=w))
        if tr is None:
            continue
        try:
            got = result(tr)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
            continue
        if not (isinstance(got, (tuple, list)) and len(got) == 2 and all(isinstance(x, Registry) for x in got)):
            res.check('variable', False, what, at, f'{what}: there are not two registries')
            continue
        cap, lsds = capacity_of(PGS, spec)
        for exp, reg, kind in ((cap, got[0], 'capacities'), (lsds, got[1], 'damage states')):
            have = {x['name']: x for x in reg.rvs}
            res.check('variable', set(have) == set(exp) and len(reg.rvs) == len(exp), f'{what}: {kind}', at, f'{what}: the {kind} are {sorted(set(have) ^ set(exp))[:3]}')
            for name, x in exp.items():
                if name not in have:
                    continue
                g = have[name]
                th = nested(g['theta'])
                res.check('variable', g['class'] == x[0] and alike_nested(th, x[1]), f'{what}: {name}', at, f'{what}: {name} is {g["class"]} {th}, not {x[0]} {x[1]}')
                if exp is cap:
                    lim = nested(g.get('truncation_limits') if g.get('truncation_limits') is not None else [NAN, NAN])
                    res.check('variable', alike(lim, x[2]), f'{what}: limits of {name}', at, f'{what}: the limits of {name} are {lim}, not {x[2]}')
                    a = g.get('anchor')
                    res.check('variable', (a['name'] if a else None) == x[3], f'{what}: anchor of {name}', at, f'{what}: the anchor of {name} is {a["name"] if a else None}, not {x[3]}')
                elif x[2] is not None:
                    res.check('variable', g.get('states') == x[2], f'{what}: states of {name}', at, f'{what}: the damage states of {name} are {g.get("states")}, not {x[2]}')


def alike_nested(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike_nested(x, y) for x, y in zip(a, b))
    return alike(a, b)


WRONG = {
    'not an operation': ({'A.1-1-2': {'ALL': '%2.0'}}, 'ValueError'), 'no operation': ({'A.1-1-2': {'LS1': '2.0'}}, 'ValueError'), 'not a number': ({'A.1-1-2': {'LS1': '*two'}}, 'ValueError'),
    'no number': ({'A.1-1-2': {'LS1': '*'}}, 'ValueError'), 'not a limit state': ({'A.1-1-2': {'DS1': '*2'}}, 'ValueError'), 'all and another': ({'A.1-1-2': {'ALL': '*2', 'LS1': '*3'}}, 'ValueError'),
    'a number': ({'A.1-1-2': {'LS1': 2.0}}, 'TypeError'), 'a number in a list': ({'A.1-1-2': {'LS1': ['*2', 3.0]}}, 'TypeError'), 'wrong in a list': ({'A.1-1-2': {'LS1': ['*2', '^3']}}, 'ValueError'),
    'second': ({'A.1-1-2': {'LS1': '*2'}, 'B.1-1-0': {'LS3': '*2', 'LS2': '*two'}}, 'ValueError'), 'of no component': ({'X-0-0': {'LS1': '=2'}}, 'ValueError'),
}


def specification(ctx, res, skipped):
    at = DS + '_create_dmg_RVs'
    for what, (spec, exp) in WRONG.items():
        w = Variables({'self': Any(a_damage_params=fragility(), a__asmnt=Any(a_log=Any(a_verbose=False), a_options=Any(a_rng='rng'))), 'pgb': Frame(Ix(list(PGS), LEVELS), Ix(['Blocks']), [[v] for v in PGS.values()]), 'scaling_specification': copy.deepcopy(spec)})
        try:
            tr = trace(ctx, at, {}, opaque=('RandomVariableRegistry', 'rv_class_map', 'DeterministicRandomVariable', 'MultinomialRandomVariable'), cls=DS[:-1], world=w)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
            continue
        got = tr.raised.name if tr.raised else None
        res.check('specification', got == exp, what, at, f'an adjustment with {what}: {got or "no exception"} is raised')


class Sampled(Any):
    """A registry whose sample is known."""

    def __init__(self, name, sample, calls):
        super().__init__()
        self.name, self.sample, self.calls, self.done = name, sample, calls, False

    def m_generate_sample(self, *a, **kw):
        self.calls.append((self.name, a, kw))
        self.done = True

    @property
    def a_RV_sample(self):
        if not self.done:
            raise Raised('ValueError', 'ValueError')
        return {k: list(v) for k, v in self.sample.items()}


def capacities(ctx, res, skipped):
    at = DS + '_generate_dmg_sample'
    keys = [('B.1', '1', '1', '0', '10', '2'), ('A.1', '1', '1', '0', '1', '2'), ('B.1', '1', '1', '0', '2', '2'), ('A.1', '1', '1', '0', '1', '1')]
    cap = {'-'.join(('FRG', *k)): [0.5 + i, 1.25 * i, 7.0 - i] for i, k in enumerate(keys)}
    lsds = {'-'.join(('LSDS', *k)): [1 + i, 2 + i, 1 + 2 * i] for i, k in enumerate(keys)}
    calls, made = [], []
    regs = (Sampled('capacities', cap, calls), Sampled('damage states', lsds, calls))

    def make(*a, **kw):
        made.append(bound(ctx, DS + '_create_dmg_RVs', (None, *a), kw))
        return regs
    me = Model(a_damage_params='parameters', a__asmnt=Any(a_log=Any(a_verbose=False), a_options=Any(a_sampling_method='method')), m__create_dmg_RVs=make)
    spec = {'A.1-1-1': {'ALL': '*2'}}
    tr = judged(skipped, res, 'capacity', 'sample', at, lambda: trace(ctx, at, {'self': me, 'sample_size': 3, 'pgb': 'pgb', 'scaling_specification': spec}, {'_create_dmg_RVs': make}, ('_create_dmg_RVs', 'RandomVariableRegistry'), cls=DS[:-1]))
    if tr is not None:
        got = result(tr)
        for kw in made:
            res.check('capacity', kw['pgb'] == 'pgb' and kw.get('scaling_specification') == spec, 'variables', at, f'the variables are of {kw}')
        res.check('capacity', sorted(x[0] for x in calls) == ['capacities', 'damage states'], 'sampled', at, f'{[x[0] for x in calls]} are sampled')
        for nm, a, kw in calls:
            kw = bound(ctx, 'pelicun.uq.RandomVariableRegistry.generate_sample', (None, *a), kw)
            res.check('capacity', kw['sample_size'] == 3 and kw['method'] == 'method', f'{nm}: size and method', at, f'{nm}: {kw["sample_size"]} are sampled by {kw["method"]}')
        if not (isinstance(got, (tuple, list)) and len(got) == 2 and all(isinstance(x, Frame) for x in got)):
            res.check('capacity', False, 'samples', at, 'there are not two samples')
        else:
            for exp, g, nm in ((cap, got[0], 'capacities'), (lsds, got[1], 'damage states')):
                have = {k: [r[j] for r in g.rows] for j, k in enumerate(g.columns.vals)}
                want = {tuple(k.split('-')[1:]): v for k, v in exp.items()}
                res.check('capacity', have == want and len(g.columns) == len(want) and g.columns.names == [*LEVELS, 'block', 'ls'], f'{nm}: values', at, f'the {nm} are {have} in {g.columns.names}')
                res.check('capacity', g.columns.vals == sorted(want), f'{nm}: order', at, f'the {nm} are not in the order of their keys')
    me = Model(a_damage_params=None, a__asmnt=Any(a_log=Any(a_verbose=False), a_options=Any(a_sampling_method='method')), m__create_dmg_RVs=make)
    rejected(ctx, res, skipped, 'capacity', 'no parameters', at, {'self': me, 'sample_size': 3, 'pgb': 'pgb', 'scaling_specification': None}, {'_create_dmg_RVs': make}, DS, opaque=('_create_dmg_RVs', 'RandomVariableRegistry'))


def evaluated(ctx, res, skipped):
    at = DS + '_evaluate_damage_state'
    # component, its blocks; limit state: capacities and damage states of the realizations
    asset = {
        ('B.1', '1', '2', '0'): {'1': {'1': ([1.0, 2.0, 3.0, 4.0, 5.0], [1, 1, 1, 1, 1]), '2': ([2.0, 3.0, 4.0, 5.0, 6.0], [2, 3, 2, 3, 2])},
                                 '2': {'1': ([9.0, 8.0, 1.0, 8.0, 2.0], [1, 1, 1, 1, 1]), '2': ([9.5, 8.5, 2.0, 8.5, 2.5], [3, 3, 2, 2, 3])}},
        ('A.1', '1', '2', '0'): {'1': {'1': ([3.5, 3.5, 3.5, 3.5, 3.5], [2, 1, 1, 2, 1]), '2': ([2.0, 6.0, 1.0, 3.0, 7.0], [3, 3, 3, 3, 3]), '10': ([2.5, 7.0, 9.0, 2.0, 7.5], [5, 4, 5, 4, 4])}},
        ('A.1', '2', '1', '0'): {'1': {'1': ([0.5, 0.75, 1.5, 0.1, 1.0], [1, 2, 1, 2, 1]), '2': ([0.6, 0.9, 2.5, 0.2, 1.5], [3, 3, 3, 3, 3])}},
        ('C.1', '1', '0', '3'): {'10': {'2': ([1.0, 1.0, 1.0, 1.0, 1.0], [1, 1, 1, 1, 1])}},
    }
    edps = {'PFA-1-2': [('PG', 'B.1', '1', '2', '0'), ('PG', 'A.1', '1', '2', '0')], 'PFA-2-1': [('PG', 'A.1', '2', '1', '0')], 'SA-1-0': [('PG', 'C.1', '1', '0', '3')]}
    demand = {'PFA-2-1': [0.55, 0.8, 1.5, 0.15, 3.0], 'PFA-1-2': [2.5, 2.5, 3.0, 4.5, 5.5], 'SA-1-0': [1.0, 1.5, 0.5, NAN, 3.0]}
    req = {k: [x[1:] for x in v] for k, v in edps.items()}
    cols = {}
    for pg, blocks in asset.items():
        for b, lss in blocks.items():
            for ls, v in lss.items():
                cols[(*pg, b, ls)] = v
    keys = sorted(cols)
    head = [*LEVELS, 'block', 'ls']
    for what, some in (('several demands', None), ('one demand', 'PFA-2-1'), ('two components', 'PFA-1-2')):
        ks = [k for k in keys if some is None or k[:4] in req[some]]
        frames = [Frame(Ix([0, 1, 2, 3, 4]), Ix(list(ks), list(head)), [[cols[k][x][i] for k in ks] for i in range(5)]) for x in (0, 1)]
        me = Any(a__asmnt=Any(a_log=Any(a_verbose=False)))
        d = {k: Arr((5,), list(v)) for k, v in demand.items() if some in (None, k)}
        r = {k: list(v) for k, v in req.items() if some in (None, k)}
        tr = judged(skipped, res, 'evaluate', what, at, lambda: trace(ctx, at, {'self': me, 'demand_dict': d, 'required_edps': r, 'capacity_sample': frames[0], 'lsds_sample': frames[1]}, cls=DS[:-1]))
        if tr is None:
            continue
        got = result(tr)
        if not isinstance(got, Frame):
            res.check('evaluate', isinstance(got, Obj), what, at, f'{what}: there are no damage states')
            continue
        have = {k: [r[j] for r in got.rows] for j, k in enumerate(got.columns.vals)}
        exp = {}
        for e, v in req.items():
            for pg in v if some in (None, e) else ():
                for b, lss in asset[pg].items():
                    out = [0] * 5
                    for ls in sorted(lss, key=int):
                        c, s = lss[ls]
                        out = [s[i] if c[i] < demand[e][i] else out[i] for i in range(5)]
                    exp[(*pg, b)] = out
        for k, v in exp.items():
            res.check('evaluate', alike_nested(have.get(k), v), f'{what}: {"-".join(k)}', at, f'{what}: the damage states of {"-".join(k)} are {have.get(k)}, not {v}')
        res.check('evaluate', len(got.columns) == len(exp), f'{what}: blocks', at, f'{what}: there are {len(got.columns)} blocks')


def quantities(ctx, res, skipped):
    at = DS + 'prepare_dmg_quantities'
    comps = {('B.1', '1', '2', '0'): [12.0, 24.0, 6.0, 18.0], ('A.1', '1', '2', '0'): [3.0, 5.0, 7.0, 9.0], ('A.1', '1', '2', '7'): [2.0, 4.0, 8.0, 16.0], ('C.1', '2', '0', '0'): [1.0, 1.5, 2.0, 2.5]}
    blocks = {('B.1', '1', '2', '0'): 3, ('A.1', '1', '2', '0'): 1, ('A.1', '1', '2', '7'): 2, ('C.1', '2', '0', '0'): 1}
    states = {
        ('B.1', '1', '2', '0', '1'): [0, 1, 2, 10], ('B.1', '1', '2', '0', '2'): [0, 2, 2, -1], ('B.1', '1', '2', '0', '3'): [1, 1, 0, -1],
        ('A.1', '1', '2', '0', '1'): [-1, 2, -1, 1], ('A.1', '1', '2', '7', '1'): [1, 1, 3, 3], ('A.1', '1', '2', '7', '2'): [1, 0, 0, 3], ('C.1', '2', '0', '0', '1'): [0, -1, 0, 3],
    }
    one = {k: v for k, v in states.items() if k[-1] == '1'}
    for what, some, marg, drop in (
        ('all', states, 'blocks', False), ('no undamaged', states, 'blocks', True), ('no table of blocks', one, None, False), ('no blocks in the table', one, 'plain', True),
    ):
        s = Frame(Ix([0, 1, 2, 3]), Ix(list(some), [*LEVELS, 'block']), [[v[i] for v in some.values()] for i in range(4)])
        c = Frame(Ix([0, 1, 2, 3]), Ix(list(comps), list(LEVELS)), [[v[i] for v in comps.values()] for i in range(4)])
        m = None if marg is None else Frame(Ix(list(blocks), list(LEVELS)), Ix(['Theta_0', 'Blocks'] if marg == 'blocks' else ['Theta_0']), [[99.0, float(b)][:2 if marg == 'blocks' else 1] for b in blocks.values()])
        me = Any(a_ds_sample=s, a__asmnt=Any(a_log=Any(a_verbose=False)))
        tr = judged(skipped, res, 'quantity', what, at, lambda: trace(ctx, at, {'self': me, 'component_sample': c, 'component_marginal_parameters': m, 'dropzero': drop}, cls=DS[:-1]))
        if tr is None:
            continue
        got = result(tr)
        if not isinstance(got, Frame):
            res.check('quantity', isinstance(got, Obj), what, at, f'{what}: there are no quantities')
            continue
        have = {k: [r[j] for r in got.rows] for j, k in enumerate(got.columns.vals)}
        exp = {}
        for k, v in some.items():
            n = blocks[k[:4]] if marg == 'blocks' else 1
            for ds in sorted({*v} - {-1} - ({0} if drop else set())):
                old = exp.setdefault((*k[:4], str(ds)), [NAN] * 4)
                for i in range(4):
                    q = NAN if v[i] == -1 else comps[k[:4]][i] / n if v[i] == ds else 0.0
                    old[i] = old[i] if isnan(q) else q if isnan(old[i]) else old[i] + q
        for k, v in exp.items():
            res.check('quantity', alike_nested(have.get(k), v), f'{what}: {"-".join(k)}', at, f'{what}: the quantities of {"-".join(k)} are {have.get(k)}, not {v}')
        res.check('quantity', set(have) == set(exp) and len(got.columns) == len(exp), f'{what}: damage states', at, f'{what}: {sorted(set(have) ^ set(exp))[:2]}')


STATES = {
    ('B.1', '1', '2', '0', '1'): [0, 1, 2, 0, 0], ('B.1', '2', '2', '0', '1'): [1, 1, 1, 0, 2], ('A.1', '1', '1', '0', '1'): [0, 0, 2, 3, 1], ('A.1', '1', '1', '0', '2'): [1, 0, 1, 2, 2],
    ('A.1', '2', '1', '0', '1'): [2, 0, 0, 1, 1], ('excessive_RID', '0', '1', '0', '1'): [0, 1, 0, 0, 1], ('A.10', '1', '1', '0', '1'): [3, 3, 3, 3, 3], ('collapse', '2', '1', '0', '1'): [0, 0, 0, 1, 0],
}
TASKS = {
    'one target': ('1_collapse', {'DS1': 'A.1_DS7'}), 'all': ('2_collapse', {'DS1': 'ALL_NA'}), 'all of several places': ('12_A.1', {'DS2': 'ALL_DS5'}), 'highest state': ('1_A.1', {'DS2': 'B.1_DS4', 'DS1': 'A.10_DS1'}),
    'several targets': ('1_B.1', {'DS1': ['A.1_DS3', 'A.10_NA'], 'DS2': ['collapse_DS1']}), 'name with _': ('3_excessive_RID', {'DS1': 'A.1_DS9'}), 'target with _': ('3_B.1', {'DS2': 'excessive_RID_DS2'}),
    'at its location': ('1_A.1-LOC', {'DS2': 'B.1_DS6'}), 'all at its location': ('1_A.1-LOC', {'DS1': 'ALL_NA'}), 'unknown source': ('1_X.1', {'DS1': 'ALL_NA'}), 'unknown target': ('1_collapse', {'DS1': ['X.1_DS1', 'A.1_DS2']}),
    'undamaged': ('1_collapse', {'DS0': 'A.1_DS0'}), 'one after the other': ('1_B.1', {'DS1': 'A.1_DS1', 'DS2': 'A.1_DS12'}), 'no event': ('1_B.1', {}), 'state that does not occur': ('1_B.1', {'DS9': 'ALL_NA'}),
}
REJECTED = {
    'source event': ('1_B.1', {'LS1': 'A.1_DS1'}), 'target event': ('1_B.1', {'DS1': 'A.1_LS1'}), 'second target': ('1_B.1', {'DS1': ['A.1_DS1', 'A.10_XX']}), 'cleared source': ('1_B.1', {'NA': 'A.1_DS1'}),
}


def after(task):
    """The damage states when a task is done."""
    out = {k: list(v) for k, v in STATES.items()}
    src, loc = task[0].split('_', 1)[1], False
    if src.endswith('-LOC'):
        src, loc = src[:-4], True
    if all(k[0] != src for k in out):
        return out
    for ev, targets in task[1].items():
        for t in targets if isinstance(targets, list) else [targets]:
            cmp, to = t.rsplit('_', 1)
            to = -1 if to == 'NA' else int(to[2:])
            for where in {k[1] for k in out if k[0] == src} if loc else {None}:
                for i in range(5):
                    if max(v[i] for k, v in out.items() if k[0] == src and where in (None, k[1])) == int(ev[2:]):
                        for k, v in out.items():
                            if (k[0] == cmp or cmp == 'ALL' and k[0] != src) and where in (None, k[1]):
                                v[i] = to
    return out


def tasks(ctx, res, skipped):
    at = DS + 'perform_dmg_task'
    for what, task in TASKS.items():
        s = Frame(Ix([0, 1, 2, 3, 4]), Ix(list(STATES), [*LEVELS, 'block']), [[v[i] for v in STATES.values()] for i in range(5)])
        me = Model(a_ds_sample=s, a__asmnt=Any(a_log=Any(a_verbose=False)))
        tr = judged(skipped, res, 'task', what, at, lambda: trace(ctx, at, {'self': me, 'task': copy.deepcopy(task)}, cls=DS[:-1]))
        if tr is None:
            continue
        got = me.a_ds_sample
        if not isinstance(got, Frame):
            skipped.append(f'{what}: damage states')
            continue
        have = {k: [r[j] for r in got.rows] for j, k in enumerate(got.columns.vals)}
        exp = after(task)
        res.check('task', set(have) == set(exp), f'{what}: blocks', at, f'{what}: there are the blocks {sorted(have)}')
        for k, v in exp.items():
            res.check('task', have.get(k) == v, f'{what}: {"-".join(k)}', at, f'{what}: the damage states of {"-".join(k)} are {have.get(k)}, not {v}')
    for what, task in REJECTED.items():
        s = Frame(Ix([0, 1, 2, 3, 4]), Ix(list(STATES), [*LEVELS, 'block']), [[v[i] for v in STATES.values()] for i in range(5)])
        rejected(ctx, res, skipped, 'task', f'invalid {what}', at, {'self': Model(a_ds_sample=s, a__asmnt=Any(a_log=Any(a_verbose=False))), 'task': copy.deepcopy(task)}, {}, DS)


def completed(ctx, res, skipped):
    at = DS + 'complete_ds_cols'
    counts = {'A.1': 5, 'B.1': 4, 'C.1': 1, 'D.1': 0}
    sample = {
        ('B.1', '1', '1', '0', '0'): [1.0, 2.0, 3.0], ('B.1', '1', '1', '0', '2'): [4.0, NAN, 6.0], ('A.1', '1', '2', '0', '1'): [10.0, 20.0, 31.0], ('A.1', '2', '2', '7', '5'): [0.25, 0.5, 0.75],
        ('A.1', '1', '2', '0', '3'): [7.0, 8.0, 9.0], ('C.1', '3', '0', '0', '0'): [5.0, 5.0, 5.0],
    }
    for what, ks in (('all', list(sample)), ('one component', [k for k in sample if k[0] == 'A.1']), ('one column', [('B.1', '1', '1', '0', '2')])):
        s = Frame(Ix([0, 1, 2]), Ix(list(ks), [*LEVELS, 'ds']), [[sample[k][i] for k in ks] for i in range(3)])
        tr = judged(skipped, res, 'complete', what, at, lambda: trace(ctx, at, {'self': Any(a_damage_params=fragility()), 'dmg_sample': s}, cls=DS[:-1]))
        if tr is None:
            continue
        got = result(tr)
        if not isinstance(got, Frame):
            res.check('complete', isinstance(got, Obj), what, at, f'{what}: there are no quantities')
            continue
        have = {k: [r[j] for r in got.rows] for j, k in enumerate(got.columns.vals)}
        exp = {(*g, str(i)): sample[(*g, str(i))] if (*g, str(i)) in ks else [0.0] * 3 for g in {k[:4] for k in ks} for i in range(counts[g[0]] + 1)}
        res.check('complete', set(have) == set(exp) and len(got.columns) == len(exp), f'{what}: damage states', at, f'{what}: {sorted(set(have) ^ set(exp))[:2]}')
        for k, v in exp.items():
            res.check('complete', k not in have or alike_nested(have[k], v), f'{what}: {"-".join(k)}', at, f'{what}: the quantities of {"-".join(k)} are {have.get(k)}, not {v}')
