"""P36: the demands of an assessment are the demands of the user."""

from __future__ import annotations

from .. import asworld as W
from ..ceval import Raised, Undecided
from ..lframe import NAN, Frame, Ix, Ser, isnan
from ..trace import Stopped
from .p35 import unit

EXPLANATION = (
    'The preparation of the demands is followed on small tables whose cells are all different: the demands handed to the demand model, its '
    'calibration and sampling, and the demands it is given at the end, including residual drifts, are compared with their definition.'
)
AT = W.CLS + 'calculate_demand'
RULES = {
    'raw': 'the demands of the user are loaded, without realizations above the collapse limits',
    'unit': 'demands without units get the unit of their type',
    'sample': 'the demand model is calibrated and sampled as configured',
    'final': 'the demands of the assessment are the sampled ones, residual drifts and a constant one',
    'rejected': 'incomplete settings are rejected',
}


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for f in (raws, samples, finals, rejected):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


# -- tables -----------------------------------------------------------------------
PLAIN = ['PFA-1-1', 'PID-1-1', 'PID-2-2', 'SA_1.13-0-1', 'PGV-0-1', 'PFD-2-1', 'RID-1-1', 'PFA-0-1', 'PID-10-1']
EVENT = [('2-' if c in ('PID-10-1', 'PFA-0-1') else '1-') + c for c in PLAIN]
ROWS = 4


def cell(c, r):
    j = PLAIN.index(c) if c in PLAIN else EVENT.index(c)
    return round(0.001 * (7 * j + 3) * (1 + (3 * r + j) % ROWS), 6)


def raw(cols=PLAIN, units=None, at=0, rows=ROWS):
    body = [[cell(c, r) for c in cols] for r in range(rows)]
    ix = [f'{r}' if units else r for r in range(rows)]
    if units:
        # a column with a unit is read as text
        body = [[str(x) for x in r] for r in body]
        body.insert(at, [units(c) for c in cols])
        ix.insert(at, 'Units')
    return Frame(Ix(ix), Ix(list(cols)), body)


def bare(c):
    return c[2:] if c[0] in '12' else c


def given(c):
    c = bare(c)
    return {'PFA': 'g', 'PID': 'rad', 'SA_1.13': 'cmps2', 'PGV': 'ftps', 'PFD': 'mm', 'RID': 'rad'}[c.split('-')[0]]


def out_sample(rid=True):
    cols = [('PFA', '0', '1'), ('PFA', '1', '1'), ('PID', '1', '1'), ('PID', '1', '2'), ('PID', '2', '1'), ('PID', '2', '2'), ('SA_1.13', '0', '1')]
    t = Frame(Ix(range(3)), Ix(cols, ['type', 'loc', 'dir']), [[0.5 + 0.25 * j + 0.01 * r * (j + 1) for j in range(len(cols))] for r in range(3)])
    return t, Ser(t.columns, [{'PFA': 'mps2', 'PID': 'rad', 'SA_1.13': 'g'}[c[0]] for c in cols], 'Units')


def prepare(ctx, table, **kw):
    params = {
        'demand_path': '/in/demands.csv', 'collapse_limits': None, 'length_unit': 'in', 'demand_calibration': None, 'sample_size': 50, 'demand_cloning': None, 'residual_drift_inference': None,
        'coupled_demands': False, **kw,
    }
    t, u = out_sample()

    def save(*_a, save_units=False, **_k):
        return (t.m_copy(), Ser(u.index, list(u.vals), 'Units')) if save_units else t.m_copy()

    def rid(demands, params, *_a, **_kw):
        y = params['yield_drift']
        return Frame(demands.index, Ix([('RID', *c[-2:]) for c in demands.columns.vals], ['type', 'loc', 'dir']), [[1000 * y + v for v in r] for r in demands.rows])

    w = W.Surround(ctx, params, {
        ('demand', 'load_sample'): None, ('demand', 'calibrate_model'): None, ('demand', 'generate_sample'): None, ('demand', 'save_sample'): save, ('demand', 'estimate_RID'): rid,
    }, tables={'/in/demands.csv': table})
    return W.follow(ctx, 'calculate_demand', w, 'p36'), w


def simple(t):
    """{label: {row: value}} of a table."""
    out = {}
    for j, c in enumerate(t.columns.vals):
        k = '-'.join(str(x) for x in c) if isinstance(c, tuple) else str(c)
        out[k] = {str(i): t.rows[a][j] for a, i in enumerate(t.index.vals)}
    return out


def close(a, b):
    try:
        return isnan(a) and isnan(b) or abs(float(a) - float(b)) < 1e-9
    except (TypeError, ValueError):
        return a == b


# -- demands of the user ---------------------------------------------------------------
def limit_cases():
    yield 'no limits', None
    yield 'a limit of drifts', {'PID': 0.12}
    yield 'two limits', {'PID': 0.2, 'PFA': 0.2}
    yield 'two limits, all beyond one', {'PID': 0.04, 'SA_1.13': 0.05}
    yield 'a limit of spectral accelerations', {'SA_1.13': 0.05}
    yield 'a limit equal to a demand', {'PID': cell('PID-10-1', 3)}
    yield 'limits above all demands', {'PID': 5.0}
    yield 'a limit as text', {'PID': '0.12'}
    yield 'a limit as a whole number', {'PID': 0}
    yield 'a limit as a larger whole number', {'PFA': 1}


def kept(cols, limits):
    out = []
    for r in range(ROWS):
        bad = False
        for d, x in (limits or {}).items():
            bad |= any(cell(c, r) > float(x) for c in cols if bare(c).split('-')[0] == d)
        if not bad:
            out.append(r)
    return out


def raws(ctx, res, skipped):
    for cols in (PLAIN, EVENT):
        for units, at in ((None, 0), (given, 0), (given, ROWS)):
            for what, limits in limit_cases():
                tag = f'{what}, {"with" if units else "without"} units' + (', last' if at else '') + (', with events' if cols is EVENT else '')
                try:
                    tr, w = prepare(ctx, raw(cols, units, at), collapse_limits=limits)
                    if tr.raised:
                        res.check('raw', False, tag, AT, f'demands with {tag}: {tr.raised.name} is raised')
                        continue
                    got = w.made('demand', 'load_sample')
                    t = got[0][0][0] if got else None
                    if not isinstance(t, Frame):
                        continue
                    got = simple(t)
                except (Undecided, Raised, Stopped) as exc:
                    skipped.append(f'raw, {tag}: {exc}')
                    continue
                rows = kept(cols, limits)
                ok = set(got) == set(cols)
                bad = [] if ok else sorted(set(got) ^ set(cols))
                for c in cols if ok else ():
                    v = {k: x for k, x in got[c].items() if k != 'Units'}
                    if set(v) != {str(r) for r in rows} or any(not close(v[str(r)], cell(c, r)) for r in rows):
                        bad.append(f'{c}: {v}')
                res.check('raw', not bad, tag, AT, f'demands with {tag}: {bad[:3]} differ from the realizations {rows} of the user')
                for c in cols if ok else ():
                    d = bare(c).split('-')[0].split('_')[0]
                    want = given(c) if units else unit(d, 'in')
                    res.check('unit', got[c].get('Units') == want, f'{tag}: {c}', AT, f'demands with {tag}: {c} has the unit {got[c].get("Units")!r} instead of {want!r}')
    lengths(ctx, res, skipped)


TYPES = ['PFA', 'PGA', 'SA', 'SA_0.5', 'PFV', 'PWS', 'PGV', 'SV', 'SV_2.0', 'PFD', 'PIH', 'SD_1.0', 'PGD', 'PID', 'PRD', 'DWD', 'RDR', 'PMD', 'RID']


def lengths(ctx, res, skipped):
    cols = [f'{t}-1-1' for t in TYPES]
    for length in ('in', 'm', 'ft', 'cm'):
        try:
            tr, w = prepare(ctx, Frame(Ix([0, 1]), Ix(cols), [[0.5 * j + r for j in range(len(cols))] for r in range(2)]), length_unit=length)
            got = w.made('demand', 'load_sample')
            if tr.raised or not got:
                res.check('unit', False, f'length in {length}', AT, f'units of demands with lengths in {length}: {tr.raised.name if tr.raised else "nothing is loaded"}')
                continue
            got = simple(got[0][0][0])
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'length in {length}: {exc}')
            continue
        for j, c in enumerate(cols):
            u = unit(TYPES[j].split('_')[0], length)
            v = got.get(c, {})
            res.check('unit', v.get('Units') == u and close(v.get('0'), 0.5 * j) and close(v.get('1'), 0.5 * j + 1), f'{c} in {length}', AT, f'{c} becomes {v} with lengths in {length}; its unit is {u}')


# -- calibration and sampling -------------------------------------------------------------
def samples(ctx, res, skipped):
    cal = {'ALL': {'DistributionFamily': 'lognormal'}, 'PID': {'DistributionFamily': 'lognormal', 'TruncateAt': [NAN, 0.1]}}
    clone = {'PFA-1-1': ['PFA-1-2', 'PFA-1-3']}
    for what, kw in {
        'defaults': {}, 'calibration': {'demand_calibration': cal}, 'empty calibration': {'demand_calibration': {}}, 'cloning': {'demand_cloning': clone}, 'coupled demands': {'coupled_demands': True, 'sample_size': 7},
        'all': {'demand_calibration': cal, 'demand_cloning': clone, 'coupled_demands': True},
    }.items():
        try:
            tr, w = prepare(ctx, raw(), **kw)
            if tr.raised:
                res.check('sample', False, what, AT, f'sampling with {what}: {tr.raised.name} is raised')
                continue
            c, g = w.made('demand', 'calibrate_model'), w.made('demand', 'generate_sample')
            order = [x[1] for x in w.done_ if x[1] in ('load_sample', 'calibrate_model', 'generate_sample')]
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'sample, {what}: {exc}')
            continue
        res.check('sample', order == ['load_sample', 'calibrate_model', 'generate_sample', 'load_sample'], f'{what}: order', AT, f'sampling with {what}: the steps are {order}')
        want = kw.get('demand_calibration') or {'ALL': {'DistributionFamily': 'empirical'}}
        res.check('sample', [str(a[0]) for a, _k in c] == [str(want)], f'{what}: calibration', AT, f'sampling with {what}: the calibration is {[a for a, _k in c]} instead of {want}')
        want = {'SampleSize': kw.get('sample_size', 50), 'PreserveRawOrder': kw.get('coupled_demands', False), 'DemandCloning': kw.get('demand_cloning')}
        res.check('sample', [a[0] for a, _k in g] == [want], f'{what}: settings', AT, f'sampling with {what}: the settings are {[a for a, _k in g]} instead of {want}')


# -- demands of the assessment ------------------------------------------------------------
def finals(ctx, res, skipped):
    t, u = out_sample()
    for what, drift in {
        'no residual drifts': None, 'residual drifts': {'method': 'FEMA P-58', '1': 0.0075, '2': 0.01}, 'residual drifts in one direction': {'method': 'FEMA P-58', '2': '0.02'},
    }.items():
        try:
            before = W.own(drift)
            tr, w = prepare(ctx, raw(), residual_drift_inference=drift)
            if tr.raised:
                res.check('final', False, what, AT, f'demands with {what}: {tr.raised.name} is raised')
                continue
            got = w.made('demand', 'load_sample')
            if len(got) != 2:
                continue
            got = simple(got[1][0][0])
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'final, {what}: {exc}')
            continue
        want = {}
        for j, c in enumerate(t.columns.vals):
            want['-'.join(c)] = ({str(r): t.rows[r][j] for r in range(3)}, u.vals[j])
            if drift and c[0] == 'PID' and c[2] in drift:
                want['-'.join(('RID', *c[1:]))] = ({str(r): 1000 * float(drift[c[2]]) + t.rows[r][j] for r in range(3)}, 'unitless')
        want['ONE-0-1'] = ({str(r): 1.0 for r in range(3)}, 'unitless')
        for c, (v, x) in want.items():
            g = got.get(c)
            ok = g is not None and set(g) == {*v, 'Units'} and g['Units'] == x and all(close(g[r], v[r]) for r in v)
            res.check('final', ok, f'{what}: {c}', AT, f'demands with {what}: {c} is {g} instead of {v} in {x}')
        res.check('final', set(got) == set(want), what, AT, f'demands with {what}: there are {sorted(set(got) - set(want))} too')
        res.check('final', drift == before, f'{what}: settings', AT, f'the settings of {what} become {drift}')


# -- incomplete settings -------------------------------------------------------------------
def rejected(ctx, res, skipped):
    for what, kw in {
        'no units': {'length_unit': None}, 'an unknown method for residual drifts': {'residual_drift_inference': {'method': 'mine', '1': 0.01}},
    }.items():
        try:
            tr, w = prepare(ctx, raw(), **kw)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'rejected, {what}: {exc}')
            continue
        res.check('rejected', tr.raised is not None and tr.raised.name in ('ValueError', 'KeyError', 'NotImplementedError'), what, AT, f'demands are prepared with {what}')
