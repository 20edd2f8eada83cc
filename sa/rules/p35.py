"""P35: collapse and irreparable damage are evaluated as they are configured."""

from __future__ import annotations

import ast

from .. import asworld as W
from ..ceval import Raised, Undecided
from ..lframe import NAN, Frame, Ix, Ser, isnan
from ..trace import Stopped

EXPLANATION = (
    'The preparation of the components and of the damage calculation is followed on small tables: the components handed to the asset model, '
    'the fragilities and databases handed to the damage model, and the damage process are compared with the configuration.'
)
ASSET, DAMAGE = W.CLS + 'calculate_asset', W.CLS + 'calculate_damage'
EVER = 1e6
RULES = {
    'component': 'components that detect collapse and irreparable damage are added where their demands are, next to those of the user',
    'fragility': 'the fragilities of collapse and irreparable damage are those of the configuration',
    'database': 'data of the user come before those of named databases, and all components get their parameters from them',
    'process': 'the damage process is the requested one, for the components that there are',
    'rejected': 'incomplete settings are rejected',
}


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for f in (assets, fragilities, databases, processes, rejected):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def edps(ctx):
    """Acronyms of the demand types."""
    m = ctx.repo.modules.get('pelicun.base')
    for nd in m.tree.body:
        t = nd.targets[0] if isinstance(nd, ast.Assign) else nd.target if isinstance(nd, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and t.id == 'EDP_to_demand_type':
            return ast.literal_eval(nd.value)
    raise Undecided('EDP_to_demand_type')


# -- components -----------------------------------------------------------------
COLS = ['Units', 'Location', 'Direction', 'Theta_0', 'Theta_1', 'Family', 'Blocks']
USER = {'B.20': ['ea', '1-3', '1,2', 4.0, 0.5, 'lognormal', 2], 'A.10': ['m2', 'all', '0', 7.5, NAN, NAN, NAN]}
PLACES = {
    'PID': [('1', '1'), ('1', '2'), ('2', '1'), ('2', '2'), ('10', '1'), ('10', '2')], 'RID': [('3', '1'), ('3', '5'), ('4', '1'), ('4', '5')], 'PFA': [('0', '1'), ('1', '1')],
    'SA_1.13': [('0', '1')], 'PGA': [('0', '1')],
}


def sample(*types):
    cols = [(t, *p) for t in types for p in PLACES[t]]
    return Frame(Ix([0, 1]), Ix(cols, ['type', 'loc', 'dir']), [[0.25 * i + r for i in range(len(cols))] for r in range(2)])


ASSETS = {
    'collapse by a global demand': (('SA_1.13', 'PID', 'RID'), 'SA_1.13', False),
    'collapse by drifts': (('PFA', 'PID', 'RID'), 'PID', False),
    'collapse and irreparable damage by drifts': (('PFA', 'PID', 'RID'), 'PID', True),
    'collapse by ground motion': (('PFA', 'PGA'), 'PGA', False),
    'no collapse limits': (('PID', 'RID'), None, False),
    'irreparable damage only': (('PID', 'RID'), None, True),
    'no residual drifts': (('PID', 'PFA'), None, True),
    'no such demand': (('PFA', 'RID'), 'PID', True),
}


def asset(ctx, types, dem, irrep, cmp='/in/cmp.csv', own_sample=None, stories=5):
    table = Frame(Ix(list(USER)), Ix(COLS), [list(v) for v in USER.values()])
    w = W.Surround(ctx, {
        'num_stories': stories, 'component_assignment_file': cmp, 'collapse_fragility_demand_type': dem, 'component_sample_file': own_sample, 'add_irreparable_damage_columns': irrep,
    }, {('demand', 'save_sample'): sample(*types), ('asset', 'load_cmp_model'): None, ('asset', 'generate_cmp_sample'): None, ('asset', 'load_cmp_sample'): None}, tables={'/in/cmp.csv': table})
    return W.follow(ctx, 'calculate_asset', w, 'p35a'), w


def spread(v):
    """Labels of a location or direction entry."""
    if isnan(v):
        return None
    v = str(v)
    if v.endswith('.0'):
        v = v[:-2]
    return {x.strip() for x in v.split(',')}


def assets(ctx, res, skipped):
    for what, (types, dem, irrep) in ASSETS.items():
        try:
            tr, w = asset(ctx, types, dem, irrep)
            if tr.raised:
                res.check('component', False, what, ASSET, f'components with {what}: {tr.raised.name} is raised')
                continue
            got = w.made('asset', 'load_cmp_model')
            t = got[-1][0][0]['marginals'] if got else None
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'asset, {what}: {exc}')
            continue
        res.check('component', len(got) == 1 and len(w.made('asset', 'generate_cmp_sample')) == 1 and not w.made('asset', 'load_cmp_sample'), f'{what}: calls', ASSET,
                  f'components with {what}: the component model is not loaded and sampled once')
        if not isinstance(t, Frame):
            continue
        rows = {k: dict(zip(t.columns.vals, r)) for k, r in zip(t.index.vals, t.rows)}
        want = {'collapse': ({'0'}, {'1'})}
        if dem is not None and not dem.startswith('SA') and dem in types:
            want['excessive.coll.DEM'] = ({p[0] for p in PLACES[dem]}, {p[1] for p in PLACES[dem]})
        if irrep and 'RID' in types:
            want['excessiveRID'] = ({p[0] for p in PLACES['RID']}, {p[1] for p in PLACES['RID']})
            want['irreparable'] = ({'0'}, {'1'})
        for k, v in USER.items():
            r = rows.get(k)
            ok = r is not None and all(r.get(c) == x or isnan(r.get(c, NAN)) and isnan(x) for c, x in zip(COLS, v))
            res.check('component', ok, f'{what}: {k}', ASSET, f'components with {what}: the component {k} of the user becomes {r}')
        for k, (locs, dirs) in want.items():
            r = rows.get(k)
            ok = r is not None and r.get('Units') == 'ea' and spread(r.get('Location')) == locs and spread(r.get('Direction')) == dirs and r.get('Theta_0') == 1 and isnan(r.get('Family', NAN)) \
                and (isnan(r.get('Blocks', NAN)) or r['Blocks'] == 1)
            res.check('component', ok, f'{what}: {k}', ASSET, f'components with {what}: {k} is {r}; it needs the locations {sorted(locs)} and directions {sorted(dirs)} and one unit')
        for k in rows:
            if k not in want and k not in USER:
                res.check('component', False, f'{what}: {k}', ASSET, f'components with {what}: there is an additional component {k}')
    stories(ctx, res, skipped)


def stories(ctx, res, skipped):
    try:
        tr, w = asset(ctx, ('PID',), None, False, None, '/in/sample.csv')
        ok = not tr.raised and [a for a, _k in w.made('asset', 'load_cmp_sample')] == [('/in/sample.csv',)] and not w.made('asset', 'load_cmp_model') and not w.made('asset', 'generate_cmp_sample')
        res.check('component', ok, 'component sample of the user', ASSET, 'the component sample of the user is not used as it is')
        res.check('component', w.sets.get(('self', 'stories')) == 5 and type(w.sets.get(('self', 'stories'))) is int, 'stories', ASSET, f'the number of stories is {w.sets.get(("self", "stories"))!r} instead of 5')
        tr, w = asset(ctx, ('PID',), None, False, '/in/cmp.csv', '/in/sample.csv')
        res.check('rejected', tr.raised is not None and tr.raised.name == 'ValueError', 'two sources of components', ASSET, 'a component sample is accepted next to a component assignment')
    except (Undecided, Raised, Stopped) as exc:
        skipped.append(f'component sample: {exc}')


# -- damage ----------------------------------------------------------------------
HEAD = [('Demand', 'Directional'), ('Demand', 'Offset'), ('Demand', 'Type'), ('Demand', 'Unit'), ('Incomplete', ''), *[(f'LS{i}', x) for i in (1, 2, 3, 4) for x in ('DamageStateWeights', 'Family', 'Theta_0', 'Theta_1')]]


def damage(ctx, cmps=('collapse', 'B.20'), **kw):
    params = {
        'length_unit': 'in', 'component_database': 'None', 'component_database_path': None, 'collapse_fragility': None, 'irreparable_damage': None, 'damage_process_approach': None,
        'damage_process_file_path': None, 'custom_model_dir': None, 'scaling_specification': None, 'is_for_water_network_assessment': False,
    }
    files = kw.pop('files', {})
    params.update(kw)
    p58 = Frame(Ix(['P.1']), Ix(HEAD, [None, None]), [[0.5] * len(HEAD)])
    ix = Ix([(c, '1', '1', '0') for c in cmps], ['cmp', 'loc', 'dir', 'uid'])
    cols = Frame(Ix([0, 1]), ix, [[1.0] * len(ix), [2.0] * len(ix)])
    w = W.Surround(ctx, params, {
        ('self', 'get_default_data'): p58, ('damage', 'load_model_parameters'): None, ('damage', 'calculate'): None, ('asset', 'list_unique_component_ids'): lambda **_k: list(cmps),
        ('asset', 'save_cmp_sample'): lambda *_a, save_units=False: (cols.m_copy(), Ser(ix, ['ea'] * len(ix))) if save_units else cols.m_copy(),
    }, {('asset', 'cmp_marginal_params'): Frame(ix, Ix(['Theta_0']), [[1.0] for _ in range(len(ix))])}, tables=files, stand={'_add_units': units})
    return W.follow(ctx, 'calculate_damage', w, 'p35d', (*W.OPAQUE, '_add_units')), w


UNITS = {'PFA': 'ps2', 'PGA': 'ps2', 'SA': 'ps2', 'PFV': 'ps', 'PWS': 'ps', 'PGV': 'ps', 'SV': 'ps', 'PFD': '', 'PIH': '', 'SD': '', 'PGD': ''}


def unit(dem, length):
    return {'in': 'inch'}.get(length, length) + UNITS[dem] if dem in UNITS else 'unitless'


def units(raw, length):
    cols = [str(c) for c in raw.columns.vals] if not raw.columns.multi else ['-'.join(c) for c in raw.columns.vals]
    return Frame(Ix(['Units']), Ix(cols), [[unit(c.split('-')[0].split('_')[0], length) for c in cols]])


PLACE = {('Demand', 'Type'): 'One', ('Demand', 'Unit'): 'unitless', ('Demand', 'Directional'): 1, ('Demand', 'Offset'): 0}
FRAG = {
    'SA_1.13': ({'DemandType': 'SA_1.13', 'CapacityDistribution': 'lognormal', 'CapacityMedian': 1.35, 'Theta_1': 0.5}, ()),
    'SA': ({'DemandType': 'SA', 'CapacityDistribution': 'lognormal', 'CapacityMedian': 1.35, 'Theta_1': 0.5}, ()),
    'PID': ({'DemandType': 'PID', 'CapacityDistribution': 'normal', 'CapacityMedian': 0.07, 'Theta_1': 0.3}, ('excessive.coll.DEM',)),
    'PGV': ({'DemandType': 'PGV', 'CapacityDistribution': 'lognormal', 'CapacityMedian': 3.0, 'Theta_1': 0.45}, ('excessive.coll.DEM',)),
    'PFA': ({'DemandType': 'PFA', 'CapacityDistribution': 'lognormal', 'CapacityMedian': 3.0, 'Theta_1': 0.45}, ('excessive.coll.DEM',)),
    'PGD': ({'DemandType': 'PGD', 'CapacityDistribution': 'lognormal', 'CapacityMedian': 2.0, 'Theta_1': 0.4}, ()),
}
IRREP = {'DriftCapacityMedian': 0.0125, 'DriftCapacityLogStd': 0.35}


def cases():
    yield 'no collapse fragility', {}, None
    yield 'water network', {'is_for_water_network_assessment': True, 'cmps': ('aggregate', 'W.1')}, None
    yield 'irreparable damage', {'irreparable_damage': dict(IRREP), 'cmps': ('collapse', 'excessiveRID', 'irreparable', 'B.20')}, None
    for k, (f, more) in FRAG.items():
        for u in ('in', 'm'):
            yield f'collapse by {k} in {u}', {'collapse_fragility': dict(f), 'length_unit': u, 'cmps': ('collapse', *more, 'B.20')}, more[0] if more else 'collapse'
    f, more = FRAG['PID']
    yield 'collapse and irreparable damage', {'collapse_fragility': dict(f), 'irreparable_damage': dict(IRREP), 'cmps': (*more, 'collapse', 'excessiveRID', 'irreparable', 'B.20')}, more[0]


def fragilities(ctx, res, skipped):
    names = edps(ctx)
    for what, kw, at in cases():
        try:
            tr, w = damage(ctx, **kw)
            if tr.raised:
                res.check('fragility', False, what, DAMAGE, f'damage with {what}: {tr.raised.name} is raised')
                continue
            got = w.made('damage', 'load_model_parameters')
            t = [x for x in got[-1][0][0] if isinstance(x, Frame)] if got else []
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'damage, {what}: {exc}')
            continue
        res.check('fragility', len(got) == 1 and len(w.made('damage', 'calculate')) == 1 and [x[1] for x in w.done_].index('load_model_parameters') < [x[1] for x in w.done_].index('calculate'), f'{what}: calls', DAMAGE,
                  f'damage with {what}: the model is not loaded and calculated once')
        if len(t) != 1:
            skipped.append(f'damage, {what}: tables')
            continue
        rows = {k: {c: v for c, v in zip(t[0].columns.vals, r) if not isnan(v)} for k, r in zip(t[0].index.vals, t[0].rows)}
        cmps = kw.get('cmps', ('collapse', 'B.20'))
        want = {}
        if kw.get('is_for_water_network_assessment'):
            want['aggregate'] = None
        else:
            want['collapse'] = PLACE
        if kw.get('collapse_fragility'):
            f = kw['collapse_fragility']
            d, _x, spec = f['DemandType'].partition('_')
            want[at] = {
                ('Demand', 'Type'): [k + (f'|{spec}' if spec else '') for k, v in names.items() if v == d], ('Demand', 'Unit'): unit(d, kw.get('length_unit', 'in')), ('Demand', 'Directional'): 1, ('Demand', 'Offset'): 0,
                ('LS1', 'Family'): f['CapacityDistribution'], ('LS1', 'Theta_0'): f['CapacityMedian'], ('LS1', 'Theta_1'): f['Theta_1'],
            }
        if kw.get('irreparable_damage'):
            want['irreparable'] = PLACE
            want['excessiveRID'] = {
                ('Demand', 'Type'): 'Residual Interstory Drift Ratio', ('Demand', 'Unit'): 'unitless', ('Demand', 'Directional'): 1, ('Demand', 'Offset'): 0,
                ('LS1', 'Family'): 'lognormal', ('LS1', 'Theta_0'): IRREP['DriftCapacityMedian'], ('LS1', 'Theta_1'): IRREP['DriftCapacityLogStd'],
            }
        for k, v in want.items():
            r = rows.get(k, {})
            if v is None or v is PLACE:
                lss = [c for c in r if c[0].startswith('LS')]
                ok = all(c[1] == 'Theta_0' and r[c] >= EVER for c in lss) and ('LS1', 'Theta_0') in r and (v is not PLACE or all(r.get(c) == x for c, x in v.items()))
                if v is None:
                    ok = ok and {c[0] for c in lss} == {'LS1', 'LS2'}
                msg = f'damage with {what}: {k} has the parameters {r}; it never happens by itself'
            else:
                ok = all(r.get(c) in x if isinstance(x, list) else r.get(c) == x for c, x in v.items()) and not any(c[0].startswith('LS') and c not in v for c in r)
                msg = f'damage with {what}: {k} has the parameters {r} instead of {v}'
            res.check('fragility', ok and not r.get(('Incomplete', '')), f'{what}: {k}', DAMAGE, msg)
        for k in rows:
            if k in cmps and k not in want:
                res.check('fragility', False, f'{what}: {k}', DAMAGE, f'damage with {what}: parameters are given for {k}')


# -- databases ---------------------------------------------------------------------
DBS = {
    'no database': ({'component_database': 'None'}, []),
    'missing database': ({'component_database': NAN}, []),
    'one database': ({'component_database': 'FEMA P-58'}, ['/dlml/FEMA P-58/fragility.csv']),
    'two databases': ({'component_database': 'FEMA P-58, Hazus'}, [{'/dlml/FEMA P-58/fragility.csv', '/dlml/Hazus/fragility.csv'}]),
    'an old name': ({'component_database': 'damage_DB.csv'}, ['/dlml/damage_DB.csv']),
    'a database without fragilities': ({'component_database': 'Hurricane,Hazus'}, ['/dlml/Hazus/fragility.csv']),
    'a file': ({'component_database': 'None', 'component_database_path': '/in/own.csv'}, ['/in/own.csv']),
    'a database and a file': ({'component_database': 'Hazus', 'component_database_path': '/in/own.csv'}, ['/in/own.csv', '/dlml/Hazus/fragility.csv']),
    'databases and a file': ({'component_database': 'Hazus,FEMA P-58', 'component_database_path': '/in/own.csv'}, ['/in/own.csv', {'/dlml/Hazus/fragility.csv', '/dlml/FEMA P-58/fragility.csv'}]),
    'a file of the custom folder': ({'component_database': 'Hazus', 'component_database_path': 'CustomDLDataFolder/own.csv', 'custom_model_dir': '/models'}, ['/models/own.csv', '/dlml/Hazus/fragility.csv']),
}
FILES = {f'/dlml/{x}': 1 for x in ('FEMA P-58/fragility.csv', 'Hazus/fragility.csv', 'damage_DB.csv')}


def databases(ctx, res, skipped):
    for what, (kw, want) in DBS.items():
        try:
            tr, w = damage(ctx, files=dict(FILES), **kw)
            if tr.raised:
                res.check('database', False, what, DAMAGE, f'damage with {what}: {tr.raised.name} is raised')
                continue
            got = w.made('damage', 'load_model_parameters')
            if not got:
                continue
            a, k = got[-1]
            paths = k.get('data_paths', a[0] if a else None)
            ids = k.get('cmp_set', a[1] if len(a) > 1 else None)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'database, {what}: {exc}')
            continue
        order = [str(x) if not isinstance(x, Frame) else 'the added fragilities' for x in paths]
        ok = order[-1:] == ['the added fragilities'] and same(order[:-1], want)
        res.check('database', ok, what, DAMAGE, f'damage with {what}: the parameters come from {order} instead of {[*want, "the added fragilities"]}')
        res.check('database', isinstance(ids, (set, list)) and set(ids) == {'collapse', 'B.20'}, f'{what}: components', DAMAGE, f'damage with {what}: parameters are loaded for {ids}')


def same(got, want):
    got = list(got)
    for x in want:
        n = len(x) if isinstance(x, set) else 1
        part, got = got[:n], got[n:]
        if (set(part) if isinstance(x, set) else part) != (x if isinstance(x, set) else [x]):
            return False
    return not got


# -- damage processes ------------------------------------------------------------------
ALL = ('excessive.coll.DEM', 'collapse', 'excessiveRID', 'irreparable')
USERS = {'1_B.20': {'DS1': ['C.1_DS2', 'ALL_NA'], 'DS2': 'collapse_DS1'}, '2_collapse': {'DS1': 'ALL_NA'}, '3_Z.9': {'DS1': 'B.20_DS0'}}
FEMA = {'1_excessive.coll.DEM': {'DS1': 'collapse_DS1'}, '2_collapse': {'DS1': 'ALL_NA'}, '3_excessiveRID': {'DS1': 'irreparable_DS1'}, '4_irreparable': {'DS1': 'ALL_NA'}, '5_irreparable': {'DS1': 'collapse_DS0'}}
HAZUS = {
    '1_STR': {'DS5': 'collapse_DS1'}, '2_excessive.coll.DEM': {'DS1': 'collapse_DS1'}, '3_collapse': {'DS1': 'ALL_NA'}, '4_excessiveRID': {'DS1': 'irreparable_DS1'}, '5_irreparable': {'DS1': 'ALL_NA'},
    '6_irreparable': {'DS1': 'collapse_DS0'},
}
LIFE = {'1_LF': {'DS5': 'collapse_DS1'}, '2_collapse': {'DS1': 'ALL_NA'}}
BLD, FAC, P58 = 'Hazus Earthquake - Buildings', 'Hazus Earthquake - Lifeline Facilities', 'FEMA P-58'


def for_asset(process, cmps, names=()):
    out = {}
    for k, v in process.items():
        for a, b in names:
            k = k.replace(a, b)
        if k.split('_')[1] in cmps:
            out[k] = v
    return out


PROCESSES = {
    'no process': (None, ('B.20', *ALL), None),
    'the process None': ('None', ('B.20', *ALL), None),
    'FEMA P-58': (P58, ('B.20', *ALL), FEMA),
    'FEMA P-58 without irreparable damage': (P58, ('B.20', 'collapse'), for_asset(FEMA, ('collapse',))),
    'FEMA P-58 without drifts': (P58, ('collapse', 'irreparable', 'excessiveRID', 'B'), for_asset(FEMA, ('collapse', 'irreparable', 'excessiveRID'))),
    'Hazus buildings': (BLD, ('STR.W1.HC', 'NSD', 'NSA.HC', *ALL), for_asset(HAZUS, ('STR.W1.HC', *ALL), (('STR', 'STR.W1.HC'),))),
    'Hazus buildings without drifts': (BLD, ('NSD', 'NSA.HC', 'STR.C2.PC', 'collapse'), for_asset(HAZUS, ('STR.C2.PC', 'collapse'), (('STR', 'STR.C2.PC'),))),
    'Hazus buildings by ground motion': (BLD, ('LF.W1.HC', 'collapse'), for_asset(HAZUS, ('collapse',))),
    'Hazus facilities': (FAC, ('LF.S1.M.PC', 'collapse'), for_asset(LIFE, ('LF.S1.M.PC', 'collapse'), (('LF', 'LF.S1.M.PC'),))),
    'Hazus Hurricane': ('Hazus Hurricane', ('W.1', 'collapse'), {}),
    'User Defined': ('User Defined', ('B.20', 'C.1', 'collapse'), USERS),
}


def ordered(p):
    """Tasks of a process in the order they are applied."""
    return None if p is None else sorted(([k, {s: [t] if isinstance(t, str) else list(t) for s, t in v.items()}] for k, v in p.items()), key=lambda x: x[0])


def processes(ctx, res, skipped):
    for what, (name, cmps, want) in PROCESSES.items():
        for scale in (None, {'B.20-1-1': '*1.2', 'ALL': '/2'}):
            try:
                tr, w = damage(ctx, cmps=cmps, damage_process_approach=name, damage_process_file_path='/in/process.json', files={'/in/process.json': USERS}, scaling_specification=scale)
                if tr.raised:
                    res.check('process', False, what, DAMAGE, f'damage with {what}: {tr.raised.name} is raised')
                    continue
                got = w.made('damage', 'calculate')
                if not got:
                    continue
                a, k = got[-1]
                p = k.get('dmg_process', a[0] if a else None)
                sc = k.get('scaling_specification', a[2] if len(a) > 2 else None)
                bad = list(leaks(tr))
            except (Undecided, Raised, Stopped) as exc:
                skipped.append(f'process, {what}: {exc}')
                continue
            res.check('process', ordered(p) == ordered(want) or not p and not want, what, DAMAGE, f'damage with {what}: the damage process is {p} instead of {want}')
            res.check('process', sc == scale, f'{what}: scaling', DAMAGE, f'damage with {what}: the scaling specification is {sc} instead of {scale}')
            res.check('process', not bad, f'{what}: defaults', DAMAGE, f'damage with {what}: the default processes {bad} are changed for later calculations')


def leaks(tr):
    from .p12 import shared

    return shared(tr)


# -- incomplete settings -----------------------------------------------------------------
def rejected(ctx, res, skipped):
    f, more = FRAG['PID']
    for what, kw in {
        'an unknown demand type for collapse': {'collapse_fragility': {**f, 'DemandType': 'XYZ'}, 'cmps': ('collapse', 'B.20')},
        'no length unit': {'collapse_fragility': dict(f), 'length_unit': None, 'cmps': (*more, 'collapse')},
        'no custom folder': {'component_database_path': 'CustomDLDataFolder/own.csv'},
        'no file of the user-defined process': {'damage_process_approach': 'User Defined'},
    }.items():
        try:
            tr, w = damage(ctx, **kw)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'rejected, {what}: {exc}')
            continue
        res.check('rejected', tr.raised is not None and tr.raised.name in ('ValueError', 'KeyError') and not w.made('damage', 'calculate'), what, DAMAGE, f'damage is calculated with {what}')
