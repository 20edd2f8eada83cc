"""P39: demands are calibrated with the settings of their type, on the realizations within the limits."""

from __future__ import annotations

import math

from .. import vq
from ..ceval import Raised, Undecided
from ..lframe import NAN, Arr, FTrace, Frame, Ix, Obj, Ser, isnan, seq
from ..trace import Stopped
from .p38 import Any, World, entry

EXPLANATION = (
    'The calibration is followed on a small table of demands, from the settings of each demand type to the data, families and limits that are '
    'passed to the fit, and from its result to the parameters, the correlations and the empirical data that are kept.'
)
DM = 'pelicun.model.demand_model.DemandModel.'
CAL = DM + 'calibrate_model'
RULES = {
    'settings': 'every demand has the family and the truncation limits of its type, in base units',
    'data': 'the data that are fitted are the realizations within the censoring and truncation limits of all demands',
    'limits': 'the fit has the limits and the number of censored realizations of the demands that are fitted',
    'parameters': 'the parameters are those of the fit, with the additional uncertainty of the type',
    'empirical': 'empirical demands are not fitted and keep the remaining data',
    'correlation': 'the correlations are those of the demands that are fitted',
    'variable': 'every demand has a random variable with its family, parameters or data and limits, and correlated demands have their correlations',
    'sample': 'the sample has the values of the variable of each demand, and copies of demands have the values and units of the demand they copy',
    'saved': 'a model is saved with all its parts, in the units of the user',
    'loaded': 'a model is loaded with all the parts that there are, in base units',
}
COLS = [('PFA', '1', '1'), ('PFA', '2', '1'), ('PID', '1', '1'), ('SAX', '3', '1'), ('SA_1.0', '0', '1'), ('SA_2.0', '0', '2')]
DATA = {
    COLS[0]: [1.0, 2.0, 3.0, 4.0, 5.0, 6.0],
    COLS[1]: [2.5, 3.5, 1.5, 4.5, 6.5, 5.5],
    COLS[2]: [0.01, 0.02, 0.03, 0.04, 0.05, 0.06],
    COLS[3]: [3.0, 3.5, 2.5, 1.5, 4.5, 2.0],
    COLS[4]: [10.0, 11.0, 12.0, 13.0, 14.0, 15.0],
    COLS[5]: [7.0, 6.0, 5.0, 4.0, 3.0, 2.0],
}
SCALE = {None: 1.0, 'g': 10.0, 'rad': 1.0, 'mps2': 1.0, 'half': 0.5}
LIM = ('CensorLower', 'CensorUpper', 'TruncateLower', 'TruncateUpper')
CASES = {
    'one family': {'ALL': {'DistributionFamily': 'lognormal'}},
    'a family per type': {'ALL': {'DistributionFamily': 'normal'}, 'PFA': {'DistributionFamily': 'lognormal'}, 'SA': {'DistributionFamily': 'normal_std'}},
    'types first': {'PID': {'DistributionFamily': 'lognormal'}, 'ALL': {'DistributionFamily': 'normal'}},
    'truncation': {'ALL': {'DistributionFamily': 'lognormal'}, 'PFA': {'DistributionFamily': 'lognormal', 'TruncateUpper': '0.52', 'Unit': 'g'}, 'PID': {'DistributionFamily': 'normal', 'TruncateLower': '0.015', 'TruncateUpper': 0.1}},
    'censoring': {'ALL': {'DistributionFamily': 'lognormal'}, 'PFA': {'DistributionFamily': 'lognormal', 'CensorUpper': '0.6', 'CensorLower': '0.15', 'Unit': 'g'}},
    'censoring and truncation': {'ALL': {'DistributionFamily': 'lognormal'}, 'PID': {'DistributionFamily': 'lognormal', 'CensorUpper': '0.05'}, 'SA': {'DistributionFamily': 'lognormal', 'TruncateLower': '5', 'Unit': 'half'}},
    'limit at a value': {'ALL': {'DistributionFamily': 'lognormal', 'CensorLower': 'N/A', 'TruncateUpper': ''}, 'SA': {'DistributionFamily': 'lognormal', 'CensorLower': '2.0'}},
    'limits for all': {'ALL': {'DistributionFamily': 'lognormal', 'CensorLower': '0.015', 'TruncateUpper': '14.5'}},
    'uncertainty, lognormal': {'ALL': {'DistributionFamily': 'lognormal', 'AddUncertainty': '0.5', 'Unit': 'half'}},
    'uncertainty, normal': {'ALL': {'DistributionFamily': 'lognormal'}, 'PFA': {'DistributionFamily': 'normal', 'AddUncertainty': '0.05', 'Unit': 'g'}, 'SA': {'DistributionFamily': 'normal_std', 'AddUncertainty': '3.0', 'Unit': 'half'}},
    'uncertainty, coefficient': {'ALL': {'DistributionFamily': 'lognormal'}, 'PFA': {'DistributionFamily': 'normal_cov', 'AddUncertainty': '0.3', 'Unit': 'g'}, 'PID': {'DistributionFamily': 'lognormal', 'AddUncertainty': '0.3'}},
    'empirical': {'ALL': {'DistributionFamily': 'lognormal'}, 'PID': {'DistributionFamily': 'empirical'}},
    'empirical and censored': {'ALL': {'DistributionFamily': 'empirical'}, 'PFA': {'DistributionFamily': 'lognormal', 'CensorUpper': '0.55', 'Unit': 'g', 'AddUncertainty': '0.2'}},
}


def own_entry(ip, b, k, st, pos):
    """The entry of a dictionary that is filled in a loop is the one of the key."""
    if b.op == 'dcomp' or b.op == 'dict' and not b.args and b.site:
        return ip.N('index', b, k)
    return entry(ip, b, k, st, pos)


def trace(ctx, qual, w, opaque=()):
    return FTrace(ctx.interp(qual, opaque=('Logger', 'pelicun.file_io', 'pelicun.uq', '_convert_marginal_params', *opaque), key='p39', hooks={'index': own_entry}), w).run()


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for what, config in CASES.items():
        try:
            case(ctx, res, what, config)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
        except Raised as exc:
            res.check('settings', False, what, CAL, f'{what}: {exc.name} is raised')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{what}: {type(exc).__name__} {exc}')
    for f in (variables, sampled, rejected, saved, loaded):
        try:
            f(ctx, res, skipped)
        except (Undecided, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Raised as exc:
            skipped.append(f'{f.__name__}: {exc.name} is raised')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def bound(ctx, qual, a, kw):
    """Arguments of a call by name."""
    args = ctx.repo.func(qual).node.args
    names = [x.arg for x in [*args.posonlyargs, *args.args]]
    return {**dict(zip(names, a)), **kw}


def table(data=None, n=6):
    data = data or DATA
    return Frame(Ix(list(range(n))), Ix(list(data), ['type', 'loc', 'dir']), [[data[c][i] for c in data] for i in range(n)])


def number(x):
    if isinstance(x, str):
        x = NAN if x.strip().lower() in ('', 'n/a', 'na', 'nan', 'none', 'null') else float(x)
    return x


def wanted(config):
    """Family, limits and additional uncertainty of every demand."""
    out = {c: {'Family': None, **dict.fromkeys((*LIM, 'Sig'), NAN)} for c in COLS}
    for t in ['ALL', *[k for k in config if k != 'ALL']]:
        s = config[t]
        f = SCALE[s.get('Unit')]
        for c in COLS:
            if t not in ('ALL', c[0].split('_')[0]):
                continue
            o = out[c]
            o['Family'] = s['DistributionFamily']
            for k in LIM:
                if k in s and not isnan(number(s[k])):
                    o[k] = number(s[k]) * f
            if 'AddUncertainty' in s:
                o['Sig'] = number(s['AddUncertainty']) * (f if s['DistributionFamily'] in ('normal', 'normal_cov', 'normal_std') else 1.0)
    return out


def inside(o, i, lo, hi, strict=True):
    return all((isnan(o[c][lo]) or DATA[c][i] > o[c][lo]) and (isnan(o[c][hi]) or DATA[c][i] < o[c][hi]) for c in COLS)


def theta(j):
    return [2.0 + j, 0.3 + 0.1 * j]


def case(ctx, res, what, config):
    calls = []

    def fit(*a, **kw):
        kw = bound(ctx, 'pelicun.uq.fit_distribution_to_sample', a, kw)
        calls.append(kw)
        n = len(rows(kw['raw_sample']))
        return Arr((n, 2), [x for j in range(n) for x in theta(j)]), Arr((n, n), [1.0 if i == j else 0.01 * (i + j) for i in range(n) for j in range(n)])

    me = Any(a_sample=table(), a_calibrated=True, a_empirical_data='data of an earlier calibration', a_marginal_params=None, a_correlation=None, a__asmnt=Any(m_scale_factor=lambda u=None: SCALE[u], a_log=Any(a_verbose=False)), a_log=Any(a_verbose=False))
    me.m_save_sample = lambda *_a, **_kw: table()
    w = World({'self': me, 'config': config}, {'fit_distribution_to_sample': fit})
    tr = trace(ctx, CAL, w, ('save_sample', 'scale_factor'))
    if tr.raised:
        raise Raised(tr.raised.name, tr.raised.name)
    o = wanted(config)
    cen = [i for i in range(6) if inside(o, i, 'CensorLower', 'CensorUpper')]
    left = [i for i in cen if inside(o, i, 'TruncateLower', 'TruncateUpper')]
    fitted = [c for c in COLS if o[c]['Family'] != 'empirical']

    def check(rule, got, want, item):
        res.check(rule, alike(got, want), f'{what}: {item}', CAL, f'{what}: the {item} is {got}, not {want}')

    if len(calls) != 1:
        res.check('data', False, what, CAL, f'{what}: {len(calls)} distributions are fitted')
        return
    kw = calls[0]
    check('data', rows(kw['raw_sample']), [[DATA[c][i] for i in left] for c in fitted], 'data fitted')
    check('settings', list(flat(kw['distribution'])), [o[c]['Family'] for c in fitted], 'families fitted')
    check('limits', rows(kw['truncation_limits']), [[o[c]['TruncateLower'], o[c]['TruncateUpper']] for c in fitted], 'truncation limits')
    if 'detection_limits' in kw:
        check('limits', rows(kw['detection_limits']), [[o[c]['CensorLower'], o[c]['CensorUpper']] for c in fitted], 'censoring limits')
        check('limits', kw.get('censored_count', 0), 6 - len(cen), 'number of censored realizations')
    m = me.stored.get('marginal_params')
    if not isinstance(m, Frame):
        raise Undecided('marginal parameters')
    par = {k: dict(zip(m.columns.vals, r)) for k, r in zip(m.index.vals, m.rows)}
    check('settings', list(par), COLS, 'demands of the model')
    if list(par) == COLS:
        check('settings', [par[c]['Family'] for c in COLS], [o[c]['Family'] for c in COLS], 'families')
        check('settings', [[par[c]['TruncateLower'], par[c]['TruncateUpper']] for c in COLS], [[o[c]['TruncateLower'], o[c]['TruncateUpper']] for c in COLS], 'truncation limits kept')
        want = []
        for c in fitted:
            t0, t1 = theta(fitted.index(c))
            sig = 0.0 if isnan(o[c]['Sig']) else o[c]['Sig']
            if o[c]['Family'] in ('normal', 'normal_cov'):
                sig /= t0
            want.append([t0, math.sqrt(t1 * t1 + sig * sig)])
        check('parameters', [[par[c]['Theta_0'], par[c]['Theta_1']] for c in fitted], want, 'parameters')
        check('parameters', [[par[c]['Theta_0'], par[c]['Theta_1']] for c in COLS if c not in fitted], [[NAN, NAN] for c in COLS if c not in fitted], 'parameters of empirical demands')
    emp = me.stored.get('empirical_data', me.a_empirical_data)
    other = [c for c in COLS if c not in fitted]
    if not other:
        res.check('empirical', emp is None or isinstance(emp, Frame) and not emp.columns.vals, f'{what}: empirical data', CAL, f'{what}: empirical data are kept of {getattr(emp, "columns", None)}')
    elif isinstance(emp, Frame):
        check('empirical', {c: [r[j] for r in emp.rows] for j, c in enumerate(emp.columns.vals)}, {c: [DATA[c][i] for i in left] for c in other}, 'empirical data')
    else:
        res.check('empirical', False, f'{what}: empirical data', CAL, f'{what}: no empirical data are kept')
    cor = me.stored.get('correlation')
    if isinstance(cor, Frame):
        n = len(fitted)
        check('correlation', [cor.index.vals, cor.columns.vals], [fitted, fitted], 'demands of the correlation')
        check('correlation', [list(r) for r in cor.rows], [[1.0 if i == j else 0.01 * (i + j) for j in range(n)] for i in range(n)], 'correlation')
    else:
        res.check('correlation', cor is None and not fitted, f'{what}: correlation', CAL, f'{what}: no correlation is kept')
    res.check('settings', me.stored.get('calibrated') is True, f'{what}: calibrated', CAL, f'{what}: the model is not marked as calibrated')


def rows(a):
    if isinstance(a, Frame):
        return [list(r) for r in a.rows]
    if isinstance(a, Arr) and len(a.shape) == 2:
        n, m = a.shape
        v = list(a.flat)
        return [v[i * m:(i + 1) * m] for i in range(n)]
    raise Undecided('array')


def flat(a):
    if isinstance(a, Arr):
        return a.flat
    return getattr(a, 'vals', a)


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return isnan(a) and isnan(b) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        except TypeError:
            return False
    return a == b


# -- random variables -------------------------------------------------------------------
MARG = {
    ('SA_1.0', '0', '1'): {'Family': 'lognormal', 'Theta_0': 2.0, 'Theta_1': 0.5, 'TruncateUpper': 9.0},
    ('PFA', '2', '1'): {'Family': 'normal', 'Theta_0': 3.0, 'Theta_1': 0.25, 'TruncateLower': 1.0},
    ('PID', '1', '2'): {'Family': 'empirical'},
    ('PFA', '10', '1'): {'Family': 'normal_std', 'Theta_0': 4.0, 'Theta_1': 0.75},
    ('PID', '1', '1'): {'Family': 'empirical'},
}
EMP = {('PID', '1', '1'): [0.5, 0.25, 0.125], ('PID', '1', '2'): [0.75, 0.375, 0.0625]}
HEAD = ['Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper']
LEVELS = ['type', 'loc', 'dir']


def marginals(cols=HEAD, rows=None):
    rows = MARG if rows is None else rows
    return Frame(Ix(list(rows), LEVELS), Ix(cols), [[v.get(c, NAN) for c in cols] for v in rows.values()])


def data_of(cols):
    return Frame(Ix([0, 1, 2]), Ix(list(cols), LEVELS), [[cols[c][i] for c in cols] for i in range(3)])


def matrix(keys):
    n = len(keys)
    return Frame(Ix(list(keys), LEVELS), Ix(list(keys), LEVELS), [[1.0 if i == j else 0.01 * (i + 1) * (j + 1) for j in range(n)] for i in range(n)])


class Set(Obj):
    def __init__(self, name, rv_list, rho):
        self.name, self.rv_list, self.rho = name, rv_list, rho


def variables(ctx, res, skipped):
    at = DM + '_create_RVs'
    fitted = [k for k, v in MARG.items() if v['Family'] != 'empirical']
    plain = {k: {x: y for x, y in v.items() if x != 'Family'} for k, v in MARG.items() if k in fitted}
    for what, cols, rows, corr, keep in (
        ('with correlations', HEAD, MARG, matrix(fitted), False), ('without correlations', HEAD, MARG, None, False), ('order of the data', HEAD, MARG, None, True),
        ('correlations in another order', HEAD, MARG, matrix(fitted[::-1]), False), ('no limits', HEAD[:3], MARG, None, False), ('fixed values', ['Theta_0'], plain, None, False),
        ('correlations of some', HEAD, MARG, matrix(fitted[1:]), True),
        ('three parameters', [*HEAD, 'Theta_2'], {**MARG, fitted[0]: {**MARG[fitted[0]], 'Theta_2': 6.0}}, matrix(fitted), False),
    ):
        got, sets = [], []

        def family(f):
            def make(name=None, theta=None, truncation_limits=None, **kw):
                if kw:
                    raise Undecided('random variable')
                return ('rv', f, name, theta, truncation_limits)
            return make

        def rvs(names):
            have = {g[2]: g for g in got}
            return {x: have[x] for x in seq(names)}

        me = Any(a__asmnt=Any(a_options=Any(a_rng='rng', a__rng='rng')), a_marginal_params=marginals(cols, rows), a_empirical_data=data_of(EMP), a_correlation=corr)
        registry = Any(m_add_RV=got.append, m_add_RV_set=sets.append, m_RVs=rvs)

        class Variables(World):
            def __call__(self, tr, n):
                if n.op == 'call' and n.args[0].op == 'call' and vq.bname(n.args[0]) == 'rv_class_map':
                    (f,), _kw = tr.args(n.args[0])
                    a, kw = tr.args(n)
                    return family(f)(*a, **kw)
                if n.op == 'new' and str(n.args[0]).endswith('RandomVariableRegistry'):
                    return registry
                if n.op == 'new' and str(n.args[0]).endswith('RandomVariableSet'):
                    made = [e.node for e in tr.ip.events if e.kind == 'call' and e.node.op == 'call' and e.node.args[0].op == 'clsref' and e.node.args[0].args[0] == n.args[0] and e.node.site == n.site]
                    if len(made) == 1:
                        a, kw = tr.args(made[0])
                        return Set(**{**dict(zip(('name', 'rv_list', 'rho'), a)), **kw})
                return super().__call__(tr, n)

        w = Variables({'self': me, 'preserve_order': keep}, {'RandomVariableRegistry': lambda *_a: registry})
        w.must = ('add_RV', 'add_RV_set')
        try:
            tr = trace(ctx, at, w)
        except (Undecided, Stopped) as exc:
            skipped.append(f'variable, {what}: {exc}')
            continue
        if tr.raised:
            res.check('variable', False, what, at, f'{what}: {tr.raised.name} is raised')
            continue
        if any(not (isinstance(g, tuple) and g[0] == 'rv') for g in got):
            raise Undecided('random variables')
        have = {g[2]: g for g in got}
        want = {'EDP-' + '-'.join(k): (k, v) for k, v in rows.items()}
        res.check('variable', len(got) == len(want) and set(have) == set(want), f'{what}: names', at, f'{what}: the random variables are {sorted(have)}, not {sorted(want)}')
        for name, (k, v) in want.items():
            if name not in have:
                continue
            _x, f, _n, theta, limits = have[name]
            f = 'deterministic' if f is None or isnan(f) else f
            fam = v.get('Family', 'deterministic')
            th = list(seq(theta))
            if fam == 'empirical':
                res.check('variable', (f, th) == ('coupled_empirical' if keep else 'empirical', EMP[k]), f'{what}: {name}', at, f'{what}: {name} is {f} with the data {th}, not {EMP[k]}')
                continue
            n = sum(x in cols for x in v if x.startswith('Theta'))
            ok = f == fam and th[:n] == [v[f'Theta_{i}'] for i in range(n)] and all(isnan(x) for x in th[n:])
            res.check('variable', ok, f'{what}: {name}', at, f'{what}: {name} is {f} {th}, not {v}')
            lim = [NAN, NAN] if limits is None else list(seq(limits))
            wl = [v.get(c, NAN) if c in cols else NAN for c in ('TruncateLower', 'TruncateUpper')]
            res.check('variable', alike(lim, wl), f'{what}: limits of {name}', at, f'{what}: the limits of {name} are {lim}, not {wl}')
        if corr is None:
            res.check('variable', not sets, f'{what}: correlations', at, f'{what}: correlations are defined')
            continue
        res.check('variable', len(sets) == 1, f'{what}: correlations', at, f'{what}: {len(sets)} sets of correlations are defined')
        for x in sets[:1]:
            names = [g[2] for g in seq(x.rv_list)]
            rho = rows_of(x.rho)
            exp = {(a, b): corr.rows[i][j] for i, a in enumerate(corr.index.vals) for j, b in enumerate(corr.columns.vals)}
            keys = [tuple(m.split('-')[1:]) for m in names]
            ok = set(keys) == set(corr.index.vals) and len(keys) == len(corr.index.vals) and all(rho[i][j] == exp[a, b] for i, a in enumerate(keys) for j, b in enumerate(keys))
            res.check('variable', ok, f'{what}: pairs', at, f'{what}: the correlations of {names} are {rho}')


def rows_of(a):
    return rows(a) if isinstance(a, (Frame, Arr)) else [list(r) for r in a]


# -- sample ---------------------------------------------------------------------------------
NAMES = ['EDP-SA_1.0-0-1', 'EDP-PFA-2-1', 'EDP-PID-1-2', 'EDP-PFA-10-1', 'EDP-PID-1-1']
UNITS = {('PFA', '2', '1'): 'g', ('PFA', '10', '1'): 'mps2', ('PID', '1', '1'): 'rad', ('PID', '1', '2'): 'percent', ('SA_1.0', '0', '1'): 'inps2'}


def sampled(ctx, res, skipped):
    at = DM + 'generate_sample'
    for what, config, copies in (
        ('sample', {'SampleSize': 3}, {}), ('order of the data', {'SampleSize': 3, 'PreserveRawOrder': True, 'DemandCloning': False}, {}),
        ('one copy', {'SampleSize': 3, 'DemandCloning': {'PFA-2-1': ['PFA-3-1']}}, {('PFA', '2', '1'): [('PFA', '3', '1')]}),
        ('many copies', {'SampleSize': 3, 'DemandCloning': {'SA_1.0-0-1': ['SA_1.0-1-1', 'SA_1.0-2-1', 'SA_1.0-0-1'], 'PFA-10-1': ['PFA-0-2', 'PFA-11-1'], 'PGV-0-1': ['PGV-1-1']}},
         {('SA_1.0', '0', '1'): [('SA_1.0', '1', '1'), ('SA_1.0', '2', '1'), ('SA_1.0', '0', '1')], ('PFA', '10', '1'): [('PFA', '0', '2'), ('PFA', '11', '1')]}),
        ('exchanged', {'SampleSize': 3, 'DemandCloning': {'PID-1-1': ['PID-1-2'], 'PID-1-2': ['PID-1-1']}}, {('PID', '1', '1'): [('PID', '1', '2')], ('PID', '1', '2'): [('PID', '1', '1')]}),
    ):
        asked, made = [], []
        values = {x: Arr((3,), [10.0 * i + j for j in range(3)]) for i, x in enumerate(NAMES)}
        reg = Any(m_generate_sample=lambda *a, **kw: asked.append({**dict(zip(('sample_size', 'method'), a)), **kw}), a_RV_sample=values)
        order = sorted(UNITS)
        units = Ser(Ix(order), [UNITS[k] for k in order], 'Units')
        me = Any(a__asmnt=Any(a_options=Any(a_sampling_method='LHS')), a_marginal_params=marginals(), a__RVs=reg, a_user_units=units, a_sample=None,
                 m__create_RVs=lambda *a, preserve_order=False: made.append(preserve_order))
        try:
            tr = trace(ctx, at, World({'self': me, 'config': config}), ('_create_RVs',))
        except (Undecided, Stopped) as exc:
            skipped.append(f'sample, {what}: {exc}')
            continue
        if tr.raised:
            res.check('sample', False, what, at, f'{what}: {tr.raised.name} is raised')
            continue
        res.check('sample', asked == [{'sample_size': 3, 'method': 'LHS'}], f'{what}: size', at, f'{what}: the sample is generated with {asked}')
        if made:
            res.check('sample', made == [bool(config.get('PreserveRawOrder'))], f'{what}: order', at, f'{what}: the order of the data is kept: {made}')
        got, u = me.stored.get('sample'), me.stored.get('user_units', units)
        if not isinstance(got, Frame) or not isinstance(u, Ser):
            raise Undecided('sample')
        have = {c: [r[j] for r in got.rows] for j, c in enumerate(got.columns.vals)}
        exp, eu = {}, {}
        for x, v in values.items():
            k = tuple(x.split('-')[1:])
            for c in copies.get(k, [k]):
                exp[c], eu[c] = v.flat, UNITS[k]
        bad = [k for k in exp if have.get(k) != exp[k]] + [k for k in have if k not in exp]
        res.check('sample', not bad and len(got.columns) == len(exp), f'{what}: values', at, ''.join(f'{what}: the sample of {k} is {have.get(k)}, not {exp.get(k)}' for k in bad[:1]) or f'{what}: columns {got.columns.vals}')
        hu = dict(zip(u.index.vals, u.vals))
        bad = [k for k in eu if hu.get(k) != eu[k]]
        res.check('sample', not bad, f'{what}: units', at, ''.join(f'{what}: the unit of {k} is {hu.get(k)}, not {eu.get(k)}' for k in bad[:1]))


def rejected(ctx, res, skipped):
    """Copies that are ambiguous and models that are missing."""
    at = DM + 'generate_sample'
    for what, config, model in (
        ('two copies with one name', {'SampleSize': 3, 'DemandCloning': {'PFA-2-1': ['PFA-3-1'], 'PFA-10-1': ['PFA-3-1']}}, True),
        ('the same copy twice', {'SampleSize': 3, 'DemandCloning': {'PFA-2-1': ['PFA-3-1', 'PFA-3-1']}}, True),
        ('no model', {'SampleSize': 3}, False),
    ):
        values = {x: Arr((3,), [10.0 * i + j for j in range(3)]) for i, x in enumerate(NAMES)}
        reg = Any(m_generate_sample=lambda *a, **kw: None, a_RV_sample=values)
        me = Any(a__asmnt=Any(a_options=Any(a_sampling_method='LHS')), a_marginal_params=marginals() if model else None, a__RVs=reg, a_user_units=Ser(Ix(sorted(UNITS)), [UNITS[k] for k in sorted(UNITS)], 'Units'), m__create_RVs=lambda *a, **kw: None)
        try:
            tr = trace(ctx, at, World({'self': me, 'config': config}), ('_create_RVs',))
        except (Undecided, Stopped) as exc:
            skipped.append(f'sample, {what}: {exc}')
            continue
        res.check('sample', tr.raised is not None and tr.raised.name == 'ValueError', what, at, f'a sample is generated with {what}')


# -- files -----------------------------------------------------------------------------------
def saved(ctx, res, skipped):
    at = DM + 'save_model'
    for what, emp in (('with empirical data', True), ('without empirical data', False)):
        files, conv = {}, []

        def save(*a, **kw):
            kw = bound(ctx, 'pelicun.file_io.save_to_csv', a, kw)
            f = str(kw.pop('filepath'))
            if f in files:
                raise Undecided('saved twice')
            files[f] = kw

        def convert(*a, **kw):
            kw = bound(ctx, 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params', (None, *a), kw)
            m = kw['marginal_params']
            conv.append(kw)
            return converted(m)

        keys = [k for k, v in MARG.items() if v['Family'] != 'empirical']
        cor, m, e = matrix(keys), marginals(), data_of(EMP) if emp else None
        units = Ser(Ix(list(MARG)), [UNITS[k] for k in MARG], 'Units')
        me = Any(a__asmnt=Any(a_unit_conversion_factors='factors'), a_marginal_params=m, a_correlation=cor, a_empirical_data=e, a_user_units=units, m__convert_marginal_params=convert)
        try:
            tr = trace(ctx, at, World({'self': me, 'file_prefix': 'dir/model'}, {'save_to_csv': save, 'Path': lambda x: x}))
        except (Undecided, Stopped) as exc:
            skipped.append(f'saved, {what}: {exc}')
            continue
        if tr.raised:
            res.check('saved', False, what, at, f'{what}: {tr.raised.name} is raised')
            continue
        names = ['dir/model_correlation.csv', 'dir/model_marginals.csv'] + (['dir/model_empirical.csv'] if emp else [])
        res.check('saved', sorted(k for k, v in files.items() if v.get('data') is not None) == sorted(names), f'{what}: files', at, f'{what}: the files are {sorted(files)}, not {sorted(names)}')
        c = files.get(names[0])
        if c:
            res.check('saved', equal(c['data'], cor) and c.get('orientation', 0) == 0 and c.get('units') is None, f'{what}: correlation', at, f'{what}: the correlations that are saved are not those of the model')
        p = files.get(names[1])
        if p and isinstance(p['data'], Frame):
            d = p['data']
            ok = p.get('units') is None and p.get('orientation', 0) == 1 and d.index.vals == m.index.vals and all(h in d.columns.vals for h in [*HEAD, 'Units'])
            res.check('saved', ok, f'{what}: marginals', at, f'{what}: the marginal parameters are saved for {d.index.vals} with {d.columns.vals}')
            if ok:
                got = {k: dict(zip(d.columns.vals, r)) for k, r in zip(d.index.vals, d.rows)}
                bad = [k for k, v in MARG.items() if got[k]['Units'] != UNITS[k] or any(not alike(got[k][h], -v[h] if h == 'Theta_0' and h in v else v.get(h, NAN)) for h in HEAD)]
                res.check('saved', not bad, f'{what}: parameters', at, ''.join(f'{what}: {k} is saved as {got[k]}' for k in bad[:1]))
                ok = len(conv) == 1 and conv[0].get('inverse_conversion') is True and alike([conv[0]['units'].vals, conv[0]['units'].index.vals], [units.vals, units.index.vals])
                res.check('saved', ok, f'{what}: conversion', at, f'{what}: the parameters are not converted to the units of the user')
        f = files.get('dir/model_empirical.csv')
        if emp and f:
            u = f.get('units')
            ok = equal(f['data'], e) and f.get('unit_conversion_factors') == 'factors' and f.get('orientation', 0) == 0 and isinstance(u, Ser) and all(dict(zip(u.index.vals, u.vals)).get(k) == UNITS[k] for k in EMP)
            res.check('saved', ok, f'{what}: empirical data', at, f'{what}: the empirical data are not saved in their units')
        ok = alike([m.index.vals, m.columns.vals, m.rows], [list(MARG), HEAD, [[v.get(c, NAN) for c in HEAD] for v in MARG.values()]])
        res.check('saved', ok, f'{what}: model', at, f'{what}: the model is changed by saving it')


def converted(m):
    """The conversion of units changes the table that it is given."""
    j = m.columns.vals.index('Theta_0')
    for r in m.rows:
        r[j] = r[j] if isnan(r[j]) else -r[j]
    return m


def equal(a, b):
    return isinstance(a, Frame) and isinstance(b, Frame) and alike([a.index.vals, a.columns.vals, a.rows], [b.index.vals, b.columns.vals, b.rows])


def loaded(ctx, res, skipped):
    at = DM + 'load_model'
    keys = [k for k, v in MARG.items() if v['Family'] != 'empirical']

    def plain(t, both=False):
        return Frame(Ix(t.index.vals) if both else t.index, Ix(t.columns.vals), [list(r) for r in t.rows])

    parts = {'marginals': marginals(), 'empirical': data_of(EMP), 'correlation': matrix(keys)}
    for what, have in (('all files', ('marginals', 'empirical', 'correlation')), ('no empirical data', ('marginals', 'correlation')), ('no correlations', ('marginals', 'empirical')), ('tables', ('marginals', 'empirical', 'correlation')), ('tables of parameters', ('marginals',)), ('tables of parameters and correlations', ('marginals', 'correlation'))):
        there = {f'dir/model_{k}.csv': k for k in have}
        src = 'dir/model' if not what.startswith('tables') else {k: parts[k] for k in have}
        units = Ser(Ix(list(MARG)), [UNITS[k] for k in MARG], 'Units')
        asked, conv = {}, []

        def load(*a, **kw):
            kw = bound(ctx, 'pelicun.file_io.load_data', a, kw)
            d = kw['data_source']
            k = there.get(d) if isinstance(d, str) else next((k for k in have if d is parts[k] or equal(d, parts[k])), None)
            if k is None:
                raise Raised('FileNotFoundError', 'FileNotFoundError')
            asked.setdefault(k, []).append(kw)
            t = parts[k]
            t = Frame(Ix(list(range(len(t.index)))) if kw.get('reindex', True) else Ix(t.index.vals), Ix(t.columns.vals), [list(r) for r in t.rows])
            return (t, units) if kw.get('return_units') else t

        def convert(*a, **kw):
            kw = bound(ctx, 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params', (None, *a), kw)
            m = kw['marginal_params']
            conv.append(kw)
            return converted(m)

        class Files(World):
            def __call__(self, tr, n):
                if n.op == 'call' and vq.bname(n) in ('exists', 'is_file'):
                    r = tr.ev(vq.recv(n)) if vq.callee(n)[0] == 'method' else tr.ev(n.args[1][0])
                    if isinstance(r, str):
                        return r in there
                return super().__call__(tr, n)

        me = Any(a__asmnt=Any(a_unit_conversion_factors='factors'), a_empirical_data='old', a_correlation='old', a_marginal_params=None, m__convert_marginal_params=convert)
        w = Files({'self': me, 'data_source': src}, {'load_data': load, 'Path': lambda x: x})
        try:
            tr = trace(ctx, at, w)
        except (Undecided, Stopped) as exc:
            skipped.append(f'loaded, {what}: {exc}')
            continue
        except Raised as exc:
            res.check('loaded', False, what, at, f'{what}: {exc.name} is raised')
            continue
        if tr.raised:
            res.check('loaded', False, what, at, f'{what}: {tr.raised.name} is raised')
            continue
        for k, name in (('empirical', 'empirical_data'), ('correlation', 'correlation')):
            got = me.stored.get(name, 'old')
            if k not in have:
                res.check('loaded', got is None, f'{what}: {k}', at, f'{what}: there is a {name} that is not in the model')
                continue
            exp = parts[k]
            ok = isinstance(got, Frame) and alike([got.columns.vals, got.rows], [exp.columns.vals, exp.rows]) and got.columns.names == LEVELS and (k == 'empirical' or got.index.vals == exp.index.vals and got.index.names == LEVELS)
            res.check('loaded', ok, f'{what}: {k}', at, f'{what}: the {name} is not that of the file')
            if k == 'empirical':
                res.check('loaded', [x.get('unit_conversion_factors') for x in asked[k]] == ['factors'], f'{what}: units of {k}', at, f'{what}: the empirical data are not converted')
        got = me.stored.get('marginal_params')
        exp = [[v.get(c, NAN) if c != 'Theta_0' or c not in v else -v[c] for c in HEAD] for v in MARG.values()]
        ok = isinstance(got, Frame) and alike([got.index.vals, got.columns.vals, got.rows], [list(MARG), HEAD, exp]) and got.index.names == LEVELS
        res.check('loaded', ok, f'{what}: marginals', at, f'{what}: the marginal parameters are not the converted ones of the file')
        a = asked.get('marginals', [{}])
        ok = len(a) == 1 and a[0].get('unit_conversion_factors') is None and a[0].get('orientation') == 1 and len(conv) == 1 and not conv[0].get('inverse_conversion') and alike(conv[0]['units'].vals, units.vals)
        res.check('loaded', ok, f'{what}: conversion', at, f'{what}: the parameters are not converted once from the units of the user')
        u = me.stored.get('user_units')
        res.check('loaded', isinstance(u, Ser) and dict(zip(u.index.vals, u.vals)) == UNITS, f'{what}: units', at, f'{what}: the units of the user are not kept')
