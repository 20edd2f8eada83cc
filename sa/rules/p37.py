"""P37: losses are calculated with the loss models of the configuration."""

from __future__ import annotations

from .. import asworld as W
from ..ceval import Raised, Undecided
from ..lframe import NAN, Arr, Frame, Ix, Ser, isnan
from ..trace import Stopped

EXPLANATION = (
    'The preparation of the loss calculation is followed on small tables: the loss map, the loss model parameters (with the consequences of '
    'replacement) and the settings handed to the loss model are compared with the configuration.'
)
AT = W.CLS + 'calculate_loss'
RULES = {
    'replacement': 'replacement has the given consequences, or the default ones of the approach; no others',
    'database': 'loss models of the user come before those of named databases, and all components get theirs from them',
    'map': 'components have the loss models of the loss map, collapse and irreparable damage those of replacement unless the user maps them',
    'setting': 'losses are calculated and aggregated once, with the requested settings',
    'rejected': 'incomplete or unknown settings are rejected',
}


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for f in (replacements, databases, maps, settings, rejected):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


# -- tables ---------------------------------------------------------------------
COLS = [('Incomplete', ''), ('Quantity', 'Unit'), ('DV', 'Unit'), ('DS1', 'Family'), ('DS1', 'Theta_0'), ('DS1', 'Theta_1'), ('DS5', 'Family'), ('DS5', 'Theta_0'), ('DS5', 'Theta_1')]


def table(rows):
    body = [[0, '1 EA', 'day' if dv == 'Time' else 'loss_ratio', 'lognormal', 0.25 * last, 0.3, 'lognormal', last, 0.5] for (_c, dv), last in rows]
    return Frame(Ix([k for k, _x in rows], [None, None]), Ix(COLS, [None, None]), body)


P58 = table([(('B.20', 'Cost'), 400.0), (('B.20', 'Time'), 12.0), (('C.1', 'Cost'), 80.0), (('STR', 'Cost'), 11.0)])
HAZUS = table([
    (('STR.RES1', 'Cost'), 0.5), (('STR.RES1', 'Time'), 360.0), (('STR.COM1', 'Time'), 480.0), (('NSA.RES1', 'Cost'), 0.25), (('LF.RES1', 'Cost'), 1.0), (('LF.RES1', 'Time'), 720.0), (('LF.COM1', 'Time'), 600.0),
])
OWN = table([(('STR.RES1', 'Time'), 111.0), (('LF.COM1', 'Time'), 222.0), (('D.7', 'Cost'), 9.0), (('STR.IND1', 'Time'), 333.0)])
DEFAULTS = {'FEMA P-58': P58, 'Hazus': HAZUS, 'Hazus Hurricane': P58, 'loss_DB.csv': P58}
FILES = {f'/dlml/{x}': 1 for x in ('FEMA P-58/consequence_repair.csv', 'Hazus/consequence_repair.csv', 'Hazus Hurricane/loss_repair.csv', 'loss_DB.csv')}
OWNS = {'/in/own.csv': OWN, '/models/own.csv': OWN}
BLD, FAC, FEMA, HU = 'Hazus Earthquake - Buildings', 'Hazus Earthquake - Lifeline Facilities', 'FEMA P-58', 'Hazus Hurricane'
MAP = [('B.20', 'B.20'), ('A.10', 'C.1')]


def user_map(rows):
    return Frame(Ix([k for k, _v in rows]), Ix(['Repair']), [[v] for _k, v in rows])


def losses(ctx, cmps=('B.20', 'collapse'), rows=MAP, files=None, **kw):
    params = {
        'loss_map_approach': 'User Defined', 'occupancy_type': 'RES1', 'consequence_database': 'FEMA P-58', 'consequence_database_path': None, 'custom_model_dir': '/models',
        'damage_process_approach': FEMA, 'replacement_cost_parameters': None, 'replacement_time_parameters': None, 'replacement_carbon_parameters': None,
        'replacement_energy_parameters': None, 'loss_map_path': '/in/map.csv', 'decision_variables': None, 'replacement_configuration': None, 'loss_combination_method': None, **kw,
    }
    ix = Ix([(c, '1', '1', '0') for c in cmps], ['cmp', 'loc', 'dir', 'uid'])
    cols = Frame(Ix([0, 1]), ix, [[1.0] * len(ix), [2.0] * len(ix)])
    agg = (Frame(Ix([0]), Ix(['repair_cost']), [[1.5]]), Frame(Ix([0]), Ix(['repair_cost']), [[False]]))

    def default(name, *_a):
        if name not in DEFAULTS:
            raise Undecided(f'data of {name}')
        return W.own(DEFAULTS[name])

    def load(path, *_a, **_kw):
        if path not in OWNS:
            raise Raised('FileNotFoundError', 'FileNotFoundError')
        return W.own(OWNS[path])

    w = W.Surround(ctx, params, {
        ('self', 'get_default_data'): default, ('loss', 'add_loss_map'): None, ('loss', 'load_model_parameters'): None, ('loss', 'calculate'): None, ('loss', 'aggregate_losses'): lambda *_a, **_k: agg,
        ('asset', 'save_cmp_sample'): lambda *_a, save_units=False: (cols.m_copy(), Ser(ix, ['ea'] * len(ix))) if save_units else cols.m_copy(),
        ('asset', 'list_unique_component_ids'): lambda **_k: list(cmps),
    }, tables={'/in/map.csv': user_map(rows), '/models/map.csv': user_map(rows[:1]), **FILES, **(files or {})}, stand={'load_data': load})
    return W.follow(ctx, 'calculate_loss', w, 'p37', W.OPAQUE), w


def argument(got, name, at):
    a, k = got
    return k[name] if name in k else a[at] if len(a) > at else None


def rows_of(t):
    """{row: {column: value}} without the missing values."""
    out = {}
    for i, r in zip(t.index.vals, t.rows):
        out[i] = {c: v for c, v in zip(t.columns.vals, r) if v is not None and not isnan(v)}
    return out


def params_of(w):
    got = w.made('loss', 'load_model_parameters')
    return argument(got[-1], 'data_paths', 0) if got else None


# -- replacement ------------------------------------------------------------------
def row(unit, value, family=None, theta=None):
    out = {('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): unit, ('DS1', 'Theta_0'): value}
    if family:
        out['DS1', 'Family'], out['DS1', 'Theta_1'] = family, theta
    return out


GIVEN = {
    'Cost': {'Unit': 'USD_2011', 'Median': 250000.0, 'Distribution': 'lognormal', 'Theta_1': 0.25}, 'Time': {'Unit': 'day', 'Median': 365.0, 'Distribution': 'normal', 'Theta_1': 0.3},
    'Carbon': {'Unit': 'lb', 'Median': 1500.0, 'Distribution': 'lognormal', 'Theta_1': 0.45}, 'Energy': {'Unit': 'kWh', 'Median': 77.0, 'Distribution': 'normal', 'Theta_1': 0.15},
}
PURE = {k: {'Unit': v['Unit'], 'Median': v['Median'] + 1} for k, v in GIVEN.items()}
ZERO = {k: {'Unit': v['Unit'], 'Median': 0.0} for k, v in GIVEN.items()}
FEMA_ROWS = {'Cost': row('USD_2011', 0), 'Time': row('worker_day', 0), 'Carbon': row('kg', 0), 'Energy': row('MJ', 0)}
OTHER = {'Cost': row('loss_ratio', 1), 'Time': row('loss_ratio', 1)}


def hazus(days):
    return {'Cost': row('loss_ratio', 1), 'Time': row('day', days)}


HDB = {'consequence_database': 'Hazus', 'cmps': ('STR.W1', 'collapse'), 'loss_map_approach': 'Automatic'}
OWNDB = {**HDB, 'consequence_database_path': '/in/own.csv'}
APPROACHES = {
    'FEMA P-58': ({'damage_process_approach': FEMA}, FEMA_ROWS),
    'a user-defined process': ({'damage_process_approach': 'User Defined'}, OTHER),
    'no process': ({'damage_process_approach': 'None'}, OTHER),
    'Hazus hurricanes': ({'damage_process_approach': HU}, OTHER),
    'Hazus buildings': ({'damage_process_approach': BLD, **HDB}, hazus(360.0)),
    'Hazus buildings of another occupancy': ({'damage_process_approach': BLD, 'occupancy_type': 'COM1', **HDB}, hazus(480.0)),
    'Hazus facilities': ({'damage_process_approach': FAC, **HDB}, hazus(720.0)),
    'Hazus buildings with own data': ({'damage_process_approach': BLD, **OWNDB}, hazus(111.0)),
    'Hazus buildings with own data of another occupancy': ({'damage_process_approach': BLD, 'occupancy_type': 'IND1', **OWNDB}, hazus(333.0)),
    'Hazus buildings without own data of the occupancy': ({'damage_process_approach': BLD, 'occupancy_type': 'COM1', **OWNDB}, hazus(480.0)),
    'Hazus facilities with own data': ({'damage_process_approach': FAC, 'occupancy_type': 'COM1', **OWNDB}, hazus(222.0)),
}


def replacement_cases():
    for what, (kw, want) in APPROACHES.items():
        yield what, kw, want
        for more, given in (('uncertain', GIVEN), ('certain', PURE), ('no', ZERO)):
            yield f'{what}, {more} consequences given', {**kw, **asked(given)}, {k: user_row(v) for k, v in given.items()}
        for one in GIVEN:
            yield f'{what}, {one} given', {**kw, **asked({one: GIVEN[one]})}, {**want, one: user_row(GIVEN[one])}


def asked(given):
    return {f'replacement_{k.lower()}_parameters': dict(v) for k, v in given.items()}


def user_row(v):
    return row(v['Unit'], v['Median'], v.get('Distribution'), v.get('Theta_1'))


def alike(a, b):
    return a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) < 1e-9


def replacements(ctx, res, skipped):
    for what, kw, want in replacement_cases():
        try:
            before = W.own({k: v for k, v in kw.items() if k.startswith('replacement')})
            tr, w = losses(ctx, **kw)
            if tr.raised:
                res.check('replacement', False, what, AT, f'losses with {what}: {tr.raised.name} is raised')
                continue
            paths = params_of(w)
            t = paths[-1] if isinstance(paths, list) and paths else None
            if not isinstance(t, Frame):
                skipped.append(f'replacement, {what}: no table')
                continue
            got = rows_of(t)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'replacement, {what}: {exc}')
            continue
        for dv in GIVEN:
            g, x = got.get(('replacement', dv)), want.get(dv)
            g = g and {k: v for k, v in g.items() if k != ('Incomplete', '') or v}
            if x is None:
                ok = g is None
                msg = f'losses with {what}: the table has a row for the {dv} of replacement ({g}), which is not known'
            else:
                ok = g is not None and set(g) == set(x) and all(alike(g[k], v) for k, v in x.items())
                msg = f'losses with {what}: the {dv} of replacement is {g} instead of {x}'
            res.check('replacement', ok, f'{what}: {dv}', AT, msg)
        res.check('replacement', {k: v for k, v in kw.items() if k.startswith('replacement')} == before, f'{what}: settings', AT, f'losses with {what}: the settings are changed')
        res.check('replacement', all(k[0] == 'replacement' for k in got), f'{what}: others', AT, f'losses with {what}: parameters are given for {sorted(got)}')


# -- databases ---------------------------------------------------------------------
DBS = {
    'no database': ({'consequence_database': 'None', 'consequence_database_path': '/in/own.csv'}, ['/in/own.csv']),
    'missing database': ({'consequence_database': NAN, 'consequence_database_path': '/in/own.csv'}, ['/in/own.csv']),
    'one database': ({}, ['/dlml/FEMA P-58/consequence_repair.csv']),
    'two databases': ({'consequence_database': 'FEMA P-58, Hazus'}, [{'/dlml/FEMA P-58/consequence_repair.csv', '/dlml/Hazus/consequence_repair.csv'}]),
    'an old name': ({'consequence_database': 'loss_DB.csv'}, ['/dlml/loss_DB.csv']),
    'loss functions': ({'consequence_database': 'Hazus Hurricane'}, ['/dlml/Hazus Hurricane/loss_repair.csv']),
    'a database of each kind': ({'consequence_database': 'Hazus Hurricane,FEMA P-58'}, [{'/dlml/Hazus Hurricane/loss_repair.csv', '/dlml/FEMA P-58/consequence_repair.csv'}]),
    'a database without loss models': ({'consequence_database': 'Floods,FEMA P-58'}, ['/dlml/FEMA P-58/consequence_repair.csv']),
    'a database and a file': ({'consequence_database_path': '/in/own.csv'}, ['/in/own.csv', '/dlml/FEMA P-58/consequence_repair.csv']),
    'databases and a file': (
        {'consequence_database': 'FEMA P-58,Hazus', 'consequence_database_path': '/in/own.csv'}, ['/in/own.csv', {'/dlml/FEMA P-58/consequence_repair.csv', '/dlml/Hazus/consequence_repair.csv'}],
    ),
    'a file of the custom folder': ({'consequence_database_path': 'CustomDLDataFolder/own.csv'}, ['/models/own.csv', '/dlml/FEMA P-58/consequence_repair.csv']),
}


def databases(ctx, res, skipped):
    from .p35 import same

    for what, (kw, want) in DBS.items():
        try:
            tr, w = losses(ctx, **kw)
            if tr.raised:
                res.check('database', False, what, AT, f'losses with {what}: {tr.raised.name} is raised')
                continue
            paths = params_of(w)
            if paths is None:
                continue
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'database, {what}: {exc}')
            continue
        order = [str(x) if not isinstance(x, Frame) else 'replacement' for x in paths]
        res.check('database', order[-1:] == ['replacement'] and same(order[:-1], want), what, AT, f'losses with {what}: the parameters come from {order} instead of {[*want, "replacement"]}')


# -- loss map ---------------------------------------------------------------------
EXTRA = [('collapse', 'replacement'), ('irreparable', 'replacement')]
HC = ('STR.W1.HC', 'NSD', 'NSA.HC', 'LF.W1', 'collapse', 'excessiveRID', 'irreparable')
MAPS = {
    'own map': ({}, [*MAP, *EXTRA]),
    'own map of the custom folder': ({'loss_map_path': 'CustomDLDataFolder/map.csv'}, [*MAP[:1], *EXTRA]),
    'own map without a custom folder': ({'custom_model_dir': None}, [*MAP, *EXTRA]),
    'own map with collapse': ({'rows': [*MAP, ('collapse', 'C.1')]}, [*MAP, ('collapse', 'C.1'), ('irreparable', 'replacement')]),
    'own map with irreparable damage': ({'rows': [('irreparable', 'B.20'), *MAP]}, [*MAP, ('collapse', 'replacement'), ('irreparable', 'B.20')]),
    'own map with both': ({'rows': [('irreparable', 'B.20'), ('collapse', 'C.1'), *MAP]}, [*MAP, ('collapse', 'C.1'), ('irreparable', 'B.20')]),
    'own old map': ({'rows': [('DMG-B.20', 'B.20'), ('DMG-collapse', 'C.1'), ('DMG-irreparable', 'B.20')]}, [('DMG-B.20', 'B.20'), ('DMG-collapse', 'C.1'), ('DMG-irreparable', 'B.20')]),
    'automatic map': ({'loss_map_approach': 'Automatic', 'cmps': ('A.10', 'B.20', 'C.1', 'collapse', 'B')}, [('B.20', 'B.20'), ('C.1', 'C.1'), *EXTRA]),
    'automatic map with own data': (
        {'loss_map_approach': 'Automatic', 'cmps': ('A.10', 'B.20', 'D.7', 'collapse'), 'consequence_database_path': '/in/own.csv'}, [('B.20', 'B.20'), ('D.7', 'D.7'), *EXTRA],
    ),
    'automatic map of hurricanes': ({'loss_map_approach': 'Automatic', 'damage_process_approach': HU, 'cmps': ('C.1', 'W.1')}, [('C.1', 'C.1'), *EXTRA]),
    'automatic map of buildings': ({**HDB, 'damage_process_approach': BLD, 'cmps': HC}, [('STR.W1.HC', 'STR.RES1'), ('NSA.HC', 'NSA.RES1'), ('LF.W1', 'LF.RES1'), *EXTRA]),
    'automatic map of another occupancy': ({**HDB, 'damage_process_approach': BLD, 'cmps': HC, 'occupancy_type': 'COM1'}, [('STR.W1.HC', 'STR.COM1'), ('LF.W1', 'LF.COM1'), *EXTRA]),
    'automatic map of facilities': ({**HDB, 'damage_process_approach': FAC, 'cmps': ('LF.S1.M.PC', 'collapse')}, [('LF.S1.M.PC', 'LF.RES1'), *EXTRA]),
    'automatic map without occupancy': (
        {'loss_map_approach': 'Automatic', 'damage_process_approach': 'Hazus Earthquake Transportation', 'occupancy_type': None, 'cmps': ('STR.X', 'B.20', 'collapse')}, [('STR.X', 'STR'), *EXTRA],
    ),
}


def maps(ctx, res, skipped):
    for what, (kw, want) in MAPS.items():
        try:
            tr, w = losses(ctx, **kw)
            if tr.raised:
                res.check('map', False, what, AT, f'losses with {what}: {tr.raised.name} is raised')
                continue
            got = w.made('loss', 'add_loss_map')
            if not got:
                continue
            t = argument(got[-1], 'loss_map_path', 0)
            policy = argument(got[-1], 'loss_map_policy', 1)
            if not isinstance(t, Frame):
                continue
            m = [(i, r[t.columns.vals.index('Repair')]) for i, r in zip(t.index.vals, t.rows)]
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'map, {what}: {exc}')
            continue
        res.check('map', sorted(m) == sorted(want), what, AT, f'losses with {what}: the loss map is {m} instead of {want}')
        res.check('map', policy is None, f'{what}: policy', AT, f'losses with {what}: other components get loss models by the policy {policy}')


# -- settings ---------------------------------------------------------------------
SETTINGS = {
    'defaults': {},
    'decision variables': {'decision_variables': ('Cost', 'Time')},
    'one decision variable': {'decision_variables': ('Carbon',)},
    'replacement thresholds': {'replacement_configuration': ('registry', {'Cost': 0.4})},
    'all': {'decision_variables': ('Time',), 'replacement_configuration': ('registry', {'Time': 0.9}), 'loss_map_approach': 'Automatic'},
}
SETTINGS['combined losses of hurricanes'] = {'loss_combination_method': 'Hazus Hurricane'}
ORDER = ['add_loss_map', 'load_model_parameters', 'calculate', 'aggregate_losses']


COMBINE = '/dlml/Hazus Hurricane Wind/combine_wind_flood.csv'
TABLE = Arr((2, 2), [0.0, 0.25, 0.5, 0.875])


def named(com):
    """The combination of losses with the name of its table."""
    if not isinstance(com, dict):
        return com
    return {dv: {c: 'table' if isinstance(t, Arr) and t.shape == TABLE.shape and t.flat == TABLE.flat else t for c, t in v.items()} if isinstance(v, dict) else v for dv, v in com.items()}


def settings(ctx, res, skipped):
    for what, kw in SETTINGS.items():
        try:
            tr, w = losses(ctx, files={COMBINE: TABLE}, **({'cmps': ('wind', 'flood'), 'rows': [('wind', 'wind'), ('flood', 'flood')], **kw} if 'loss_combination_method' in kw else kw))
            if tr.raised:
                res.check('setting', False, what, AT, f'losses with {what}: {tr.raised.name} is raised')
                continue
            got = [x for m, x, _a, _k in w.done_ if m == 'loss']
            dv = w.sets.get(('loss', 'decision_variables'))
            agg = w.made('loss', 'aggregate_losses')[-1] if 'aggregate_losses' in got else None
            result = tr.ev(tr.result) if tr.result is not None else None
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'setting, {what}: {exc}')
            continue
        res.check('setting', got == (['decision_variables =', *ORDER] if kw.get('decision_variables') else ORDER), f'{what}: order', AT, f'losses with {what}: the steps are {got}')
        want = kw.get('decision_variables')
        res.check('setting', (tuple(dv) if isinstance(dv, (list, tuple)) else dv) == want, f'{what}: decision variables', AT, f'losses with {what}: the decision variables are {dv} instead of {want}')
        if agg is None:
            continue
        wind = {'Cost': {('wind', 'flood'): 'table'}}
        rep, com = argument(agg, 'replacement_configuration', 0), argument(agg, 'loss_combination', 1)
        res.check('setting', rep == kw.get('replacement_configuration') and (named(com) == wind if 'loss_combination_method' in kw else com is None), f'{what}: aggregation', AT, f'losses with {what}: losses are aggregated with {rep} and {com}')
        ok = isinstance(result, tuple) and len(result) == 2 and all(isinstance(x, Frame) for x in result) and [x.rows for x in result] == [[[1.5]], [[False]]]
        res.check('setting', ok, f'{what}: result', AT, f'losses with {what}: the result is not that of the aggregation')


# -- incomplete settings -----------------------------------------------------------------
def rejected(ctx, res, skipped):
    for what, kw in {
        'an unknown loss map approach': {'loss_map_approach': 'Custom'},
        'no loss map': {'loss_map_path': None},
        'no custom folder of the loss map': {'loss_map_path': 'CustomDLDataFolder/map.csv', 'custom_model_dir': None},
        'no custom folder of the data': {'consequence_database_path': 'CustomDLDataFolder/own.csv', 'custom_model_dir': None},
        'an unknown combination of losses': {'loss_combination_method': 'Sum'},
    }.items():
        try:
            tr, w = losses(ctx, **kw)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'rejected, {what}: {exc}')
            continue
        ok = tr.raised is not None and tr.raised.name in ('ValueError', 'KeyError', 'TypeError', 'AssertionError') and not w.made('loss', 'aggregate_losses')
        res.check('rejected', ok, what, AT, f'losses are calculated with {what}')
