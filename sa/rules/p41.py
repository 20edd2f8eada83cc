"""P41: settings and tables are read, merged and converted as the shared functions describe."""

from __future__ import annotations

import copy
import json
import math
import os

from ..ceval import Raised, Undecided
from ..dlworld import get as d_get
from ..dlworld import unspecified as d_unspecified
from ..dlworld import update as d_update
from ..lframe import NAN, Arr, FTrace, Frame, Ix, Obj, Ser, isnan
from ..trace import Stopped
from .p38 import Any, World
from .p39 import alike, bound, own_entry

EXPLANATION = (
    'The shared functions are followed from their source on configurations, tables and texts that are chosen to separate the cases of their descriptions, and their results are '
    'compared with the descriptions: also the arguments must be as they were, where a function returns a copy.'
)
B = 'pelicun.base.'
DL = 'pelicun.tools.DL_calculation.'
RULES = {
    'read': 'a setting is read from its path, and the default is used exactly when the path does not exist',
    'specified': 'a setting is unspecified exactly when it is missing, None, NaN or empty',
    'write': 'a setting is written at its path, other settings stay, and an existing value is kept when only empty ones are to be set',
    'merge': 'settings of the user are kept, missing ones get the default, and a dictionary cannot replace a value or the reverse',
    'options': 'each option has the value of its setting, and the settings of the user are not modified',
    'text': 'texts are converted to truth values, numbers and missing values as described, and other texts are rejected or not converted',
    'mapping': 'mappings with duplicates are rejected, others are converted completely',
    'simple': 'levels of an index are joined with dashes, in their order, on the axis that is requested',
    'levels': 'labels are split at dashes and padded at the end, on the axis that is requested',
    'scaled': 'a factor is applied to exactly the rows or columns with the given levels',
    'unique': 'each row gets the number of earlier rows with its index, and keeps its values',
    'statistics': 'the statistics are those of the data, and a logarithmic standard deviation is given exactly for positive data',
    'result': 'a table is converted to nested dictionaries with all its values',
    'interpolation': 'the values before the bar are those of the function at the values after it',
}


def run(ctx, res):
    for name, text in RULES.items():
        res.rule(name, text, minimum=0)
    skipped = []
    for f in (reads, writes, merges, options, texts, mappings, indices, scaled, unique, statistics, results, interpolation):
        try:
            f(ctx, res, skipped)
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def call(ctx, qual, params, stand=None, opaque=()):
    """What a function returns, or the exception that leaves it."""
    w = World(params, {**(stand or {})})
    tr = FTrace(ctx.interp(qual, opaque=('Logger', *opaque), key='p41', hooks={'index': own_entry}), w).run()
    if tr.raised:
        return ('raised', tr.raised.name)
    return ('value', tr.ev(tr.result) if tr.result is not None else None)


def judge(ctx, res, skipped, rule, qual, params, want, what, stand=None, opaque=(), same=None, after=None):
    """A call has the result that is described: `want` is ('raised', names) or ('value', v)."""
    kept = copy.deepcopy(params)
    try:
        got = call(ctx, qual, params, stand, opaque)
    except (Undecided, Stopped, Raised) as exc:
        skipped.append(f'{rule}: {what}: {type(exc).__name__} {exc}')
        return
    if want[0] == 'raised':
        ok = got[0] == 'raised' and got[1] in want[1]
        msg = f'{what}: {"an error is expected" if got[0] != "raised" else f"{got[1]} instead of {want[1][0]}"}'
    else:
        ok = got[0] == 'value' and (same or value_alike)(got[1], want[1])
        msg = f'{what}: {show(got)} instead of {show(want)}'
    res.check(rule, ok, what, qual, msg)
    if after is not None and got[0] == 'value':
        res.check(rule, after(params, kept), f'{what}: arguments', qual, f'{what}: the arguments are not as described after the call')


def show(v):
    t = v[1] if v[0] == 'value' else f'an error {v[1]}'
    if isinstance(t, Frame):
        t = (t.index.vals, t.columns.vals, t.rows)
    if isinstance(t, Ser):
        t = (t.index.vals, t.vals)
    return str(t)[:160]


def value_alike(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(value_alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(value_alike(a[k], b[k]) for k in a)
    if isinstance(a, Arr):
        a = a.m_tolist()
        return value_alike(a, b)
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    return type(a) is type(b) and alike(a, b) if isinstance(a, str) or isinstance(b, str) else alike(a, b)


def frames_alike(a, b):
    if isinstance(a, Frame) and isinstance(b, Frame):
        return a.index.vals == b.index.vals and a.columns.vals == b.columns.vals and value_alike(a.rows, b.rows)
    if isinstance(a, Ser) and isinstance(b, Ser):
        return a.index.vals == b.index.vals and value_alike(list(a.vals), list(b.vals))
    return False


def unchanged(params, kept):
    return all(frames_alike(params[k], kept[k]) if isinstance(kept[k], (Frame, Ser)) else value_alike(params[k], kept[k]) for k in kept if isinstance(kept[k], (dict, list, Frame, Ser)))


# -- paths ------------------------------------------------------------------------------
CONFIG = {'DL': {'Asset': {'Stories': 3, 'None': None, 'Zero': 0, 'No': False, 'Text': '', 'Empty': {}, 'List': [], 'NaN': NAN, 'Items': [1]}, 'Name': 'x'}, 'Top': 5, 'Nothing': None}
PATHS = (
    'DL/Asset/Stories', '/DL/Asset/Stories', 'DL/Asset/Stories/', '/DL/Asset', 'DL', 'Top', 'Nothing', 'Nothing/More', 'Top/More', 'DL/Name', 'DL/None', 'DL/Asset/None', 'DL/Asset/Zero', 'DL/Asset/No', 'DL/Asset/Text', 'DL/Asset/Empty',
    'DL/Asset/Empty/x', 'DL/Asset/NaN', 'DL/Asset/Missing/y', 'Missing', 'Missing/a/b', 'Stories',
)


def reads(ctx, res, skipped):
    for p in (*PATHS, 'DL/Asset/List', 'DL/Asset/Items'):
        for default in (None, 'default'):
            judge(ctx, res, skipped, 'read', B + 'get', {'d': copy.deepcopy(CONFIG), 'path': p, 'default': default}, ('value', d_get(CONFIG, p, default)), f'{p}, default {default}', after=unchanged)
    judge(ctx, res, skipped, 'read', B + 'get', {'d': None, 'path': 'a/b', 'default': 4}, ('value', 4), 'no configuration')
    for p in (*PATHS, 'DL/Asset/List'):
        un = d_unspecified(CONFIG, p)
        judge(ctx, res, skipped, 'specified', B + 'is_unspecified', {'d': copy.deepcopy(CONFIG), 'path': p}, ('value', un), f'{p}, unspecified', after=unchanged)
        judge(ctx, res, skipped, 'specified', B + 'is_specified', {'d': copy.deepcopy(CONFIG), 'path': p}, ('value', not un), f'{p}, specified', after=unchanged)


def writes(ctx, res, skipped):
    for p in (*PATHS, 'DL/Asset/New/a/b', 'DL/Asset/List'):
        for only in (False, True):
            new = copy.deepcopy(CONFIG)
            d_update(new, p, 77, only)
            ok = copy.deepcopy(CONFIG)
            judge(ctx, res, skipped, 'write', B + 'update', {'d': ok, 'path': p, 'value': 77, 'only_if_empty_or_none': only}, ('value', None), f'{p}{", if empty" if only else ""}', after=lambda params, _k, new=new: value_alike(params['d'], new))


# -- merged settings ----------------------------------------------------------------------
DEFAULT = {'A': 1, 'B': {'C': 2, 'D': {'E': 3, 'F': None}}, 'G': None, 'H': [1, 2], 'I': {}}
USERS = {
    'no settings': {},
    'one value': {'A': 10},
    'a nested value': {'B': {'C': 20}},
    'a deep value': {'B': {'D': {'F': 30}}},
    'values without default': {'X': 1, 'B': {'Y': {'Z': 2}}},
    'empty values': {'A': None, 'H': [], 'B': {'D': {'E': 0}}},
    'all values': {'A': 5, 'B': {'C': 6, 'D': {'E': 7, 'F': 8}}, 'G': 9, 'H': 'h', 'I': {'J': 1}},
    'value for a dictionary': {'B': 5},
    'value for a deep dictionary': {'A': 4, 'B': {'C': 1, 'D': 7}},
    'none for a dictionary': {'B': {'D': None}},
    'dictionary for a value': {'A': {'x': 1}},
    'dictionary for none': {'G': {}},
    'dictionary for a deep value': {'B': {'D': {'E': {'q': 1}}}},
}


def merged(user, default):
    out = copy.deepcopy(user)
    for k, v in default.items():
        if k not in out:
            out[k] = copy.deepcopy(v)
        elif isinstance(v, dict) != isinstance(out[k], dict):
            raise ValueError
        elif isinstance(v, dict):
            out[k] = merged(out[k], v)
    return out


def follow_update(ctx):
    """The function that merges settings, including its calls of itself."""
    def f(*a, **kw):
        got = call(ctx, B + 'update_vals', bound(ctx, B + 'update_vals', a, kw), {'update_vals': f}, ('update_vals',))
        if got[0] == 'raised':
            raise Raised(got[1], got[1])
        return got[1]

    return f


def expected(user):
    try:
        return ('value', merged(user, DEFAULT))
    except ValueError:
        return ('raised', ('ValueError',))


def merges(ctx, res, skipped):
    f = follow_update(ctx)
    for what, user in USERS.items():
        new = expected(user)
        primary = copy.deepcopy(DEFAULT)
        judge(
            ctx, res, skipped, 'merge', B + 'update_vals', {'update_value': copy.deepcopy(user), 'primary': primary, 'update_path': 'user', 'primary_path': 'default'}, new if new[0] == 'raised' else ('value', None), what, {'update_vals': f}, ('update_vals',),
            after=lambda params, kept, new=new: value_alike(params['update_value'], new[1]) and value_alike(params['primary'], kept['primary']),
        )
        judge(
            ctx, res, skipped, 'merge', B + 'merge_default_config', {'user_config': copy.deepcopy(user)}, new, f'{what}, with the defaults', {'update_vals': f, 'load_default_options': lambda: copy.deepcopy(DEFAULT)}, ('update_vals', 'load_default_options'),
        )
    judge(
        ctx, res, skipped, 'merge', B + 'merge_default_config', {'user_config': None}, ('value', DEFAULT), 'only defaults', {'update_vals': f, 'load_default_options': lambda: copy.deepcopy(DEFAULT)}, ('update_vals', 'load_default_options'),
    )


# -- options ------------------------------------------------------------------------------
OPTIONS = {
    'sampling_method': ('Sampling', 'SamplingMethod'), 'list_all_ds': ('ListAllDamageStates',), 'units_file': ('UnitsFile',), 'demand_offset': ('DemandOffset',), 'nondir_multi_dict': ('NonDirectionalMultipliers',),
    'rho_cost_time': ('RepairCostAndTimeCorrelation',), 'eco_scale': ('EconomiesOfScale',), 'error_setup': ('ErrorSetup',), '_seed': ('Seed',),
}
LOGGER = {'log_file': 'LogFile', 'verbose': 'Verbose', 'log_show_ms': 'LogShowMS', 'print_log': 'PrintLog'}


def options(ctx, res, skipped):
    import pathlib

    path = pathlib.Path(os.environ.get('PELICUN_REPO', '/repo')) / 'pelicun/settings/default_config.json'
    settings = {k: f'value of {k}' for k in json.loads(path.read_text(encoding='utf-8'))['Options']}
    for ks in OPTIONS.values():
        settings.setdefault(ks[0], f'value of {ks[0]}')
    for k in LOGGER.values():
        settings.setdefault(k, f'value of {k}')
    settings['Sampling'] = {'SamplingMethod': 'value of SamplingMethod'}
    settings['Seed'] = 4321
    user, seen, logs, seeds = {'Seed': 4321, 'Sampling': {'SamplingMethod': 'a'}}, [], [], []
    me, owner = Any(), Any()

    def merge(u):
        seen.append(copy.deepcopy(u))
        if isinstance(u, dict):
            u['Other'] = 'added'
        return copy.deepcopy(settings)

    def log(*a, **kw):
        logs.append(bound(ctx, B + 'Logger.__init__', (None, *a), kw))
        return Any()

    def rng(*a, **kw):
        seeds.append((list(a) + list(kw.values()))[0] if a or kw else None)
        return Any()

    kept = copy.deepcopy(user)
    qual = B + 'Options.__init__'
    class Made(World):
        def __call__(self, tr, n):
            if n.op == 'new' and str(n.args[0]).endswith('Logger'):
                return Any()
            return super().__call__(tr, n)

    w = Made({'self': me, 'user_config_options': user, 'assessment': owner}, {'merge_default_config': merge, 'Logger': log, 'default_rng': rng, 'deepcopy': copy.deepcopy})
    w.must = ('merge_default_config', 'Logger')
    tr = FTrace(ctx.interp(qual, opaque=('Logger', 'merge_default_config'), key='p41', hooks={'index': own_entry}), w).run()
    if tr.raised:
        res.check('options', False, 'options', qual, f'options of an assessment raise {tr.raised.name}')
        return
    res.check('options', seen == [kept], 'settings that are merged', qual, 'the settings of the user are not those that are merged with the defaults')
    res.check('options', user == kept, 'settings of the user', qual, 'the settings of the user are modified')
    for a, ks in OPTIONS.items():
        want = settings
        for k in ks:
            want = want[k]
        if a not in me.stored:
            skipped.append(f'options: {a} is not stored')
            continue
        res.check('options', me.stored[a] == want, a, qual, f'the option {a} has {me.stored[a]} instead of the {want}')
    if '_asmnt' in me.stored:
        res.check('options', me.stored['_asmnt'] is owner, 'assessment', qual, 'the options do not refer to their assessment')
    if seeds:
        res.check('options', seeds == [4321], 'seed', qual, f'the generator is made with {seeds} instead of the seed')
    else:
        skipped.append('options: no generator')
    if len(logs) == 1:
        for p, k in LOGGER.items():
            res.check('options', logs[0].get(p) == settings[k], f'logger, {p}', qual, f'the logger has {logs[0].get(p)} as {p} instead of the {settings[k]}')
    else:
        skipped.append('options: no logger')


# -- texts --------------------------------------------------------------------------------
TRUE = ('yes', 'true', 'True', 't', 'y', '1', 'YES', 'Y', 'TRUE', 'T')
FALSE = ('no', 'false', 'False', 'f', 'n', '0', 'NO', 'N', 'FALSE', 'F')
MISSING = ('', 'N/A', '-1.#QNAN', 'null', 'None', '<NA>', 'nan', '-NaN', '1.#IND', 'NaN', '#NA', '1.#QNAN', 'NULL', '-nan', '#N/A', '#N/A N/A', 'n/a', '-1.#IND', 'NA')
PRESENT = ('a', '0', 'none', 'Na', ' ', 'N', '1.5', 'no', 'n.a.', 'NAN1', 0, 0.0, None, 1.5, False)


def texts(ctx, res, skipped):
    for v in (*TRUE, True):
        judge(ctx, res, skipped, 'text', B + 'str2bool', {'v': v}, ('value', True), f'{v!r} is true')
    for v in (*FALSE, False):
        judge(ctx, res, skipped, 'text', B + 'str2bool', {'v': v}, ('value', False), f'{v!r} is false')
    for v in ('maybe', '', '2', 'on', 'none', 'yess', 'tr'):
        judge(ctx, res, skipped, 'text', B + 'str2bool', {'v': v}, ('raised', ('ArgumentTypeError', 'argparse.ArgumentTypeError')), f'{v!r} is neither true nor false')
    for v, f, i in (('1.5', 1.5, None), ('3', 3.0, 3), ('-2', -2.0, -2), ('1e3', 1000.0, None), ('x', None, None), ('', None, None), ('1,5', None, None), ('0', 0.0, 0), ('7 in', None, None), ('0.0', 0.0, None)):
        judge(ctx, res, skipped, 'text', B + 'float_or_None', {'string': v}, ('value', f), f'{v!r} as a number', same=typed)
        judge(ctx, res, skipped, 'text', B + 'int_or_None', {'string': v}, ('value', i), f'{v!r} as an integer', same=typed)
    for v in MISSING:
        judge(ctx, res, skipped, 'text', B + 'check_if_str_is_na', {'string': v}, ('value', True), f'{v!r} is missing')
    for v in PRESENT:
        judge(ctx, res, skipped, 'text', B + 'check_if_str_is_na', {'string': v}, ('value', False), f'{v!r} is present')
    for v in (0, False, '', 'a', [], {}):
        judge(ctx, res, skipped, 'text', B + 'ensure_value', {'value': v}, ('value', v), f'value {v!r}')
    judge(ctx, res, skipped, 'text', B + 'ensure_value', {'value': None}, ('raised', ('TypeError',)), 'no value')


def typed(a, b):
    return type(a) is type(b) and value_alike(a, b)


def mappings(ctx, res, skipped):
    q = B + 'invert_mapping'
    for what, d, want in (
        ('separate lists', {'a': [1, 2], 'b': [3], 'c': []}, ('value', {1: 'a', 2: 'a', 3: 'b'})),
        ('nothing', {}, ('value', {})),
        ('a value in two lists', {'a': [1, 2], 'b': [3, 2]}, ('raised', ('ValueError',))),
        ('a value twice in a list', {'a': [1, 1]}, ('raised', ('ValueError',))),
    ):
        judge(ctx, res, skipped, 'mapping', q, {'original_dict': d}, want, f'inverse, {what}', after=unchanged)
    q = B + 'dict_raise_on_duplicates'
    for what, d, want in (
        ('different keys', [('a', 1), ('b', 2), ('c', 1)], ('value', {'a': 1, 'b': 2, 'c': 1})),
        ('no pairs', [], ('value', {})),
        ('a key twice', [('a', 1), ('b', 2), ('a', 2)], ('raised', ('ValueError',))),
        ('a pair twice', [('a', 1), ('a', 1)], ('raised', ('ValueError',))),
        ('a key with nothing twice', [('a', None), ('b', 1), ('a', 0)], ('raised', ('ValueError',))),
    ):
        judge(ctx, res, skipped, 'mapping', q, {'ordered_pairs': d}, want, f'pairs, {what}', after=unchanged)


# -- indices --------------------------------------------------------------------------------
def table(index, columns):
    return Frame(index, columns, [[float(10 * i + j) for j in range(len(columns))] for i in range(len(index))])


PLAIN = Ix(['x', 'y', 'z'])
DEEP = {
    'three levels': Ix([('PFA', '1', '2'), ('PID', '2', '1'), ('A', '', 'b')], ['type', 'loc', 'dir']),
    'numbers': Ix([(1, 2), (10, 0), (3, 'a')], ['x', None]),
    'one label': Ix([('SA_1.0', 0, 1, 'c')], [None, 'loc', 'dir', 'uid']),
}
FLAT = {
    'three parts': Ix(['PFA-1-2', 'PID-2-1', 'B-3-4']),
    'different parts': Ix(['PFA-1-2', 'Collapse', 'A-1']),
    'an empty part': Ix(['a--b', 'c-d-']),
    'no parts': Ix(['a', 'b']),
    'numbers': Ix([1, 2.5, 3]),
    'numbers and texts': Ix([7, 'a-1']),
}


def placed(ix, axis, other=PLAIN):
    return table(ix, other) if axis == 0 else table(other, ix)


def named(a, b):
    return frames_alike(a, b) and list(a.index.names) == list(b.index.names) and list(a.columns.names) == list(b.columns.names)


def indices(ctx, res, skipped):
    for axis in (0, 1):
        side = 'columns' if axis else 'rows'
        for inplace in (False, True):
            how = f'{side}, {"in place" if inplace else "a copy"}'
            for what, ix in {**DEEP, 'one level': PLAIN}.items():
                new = Ix(['-'.join(str(x) for x in v) for v in ix.vals], ['-'.join(n or '' for n in ix.names)]) if ix.multi else ix
                other = Ix([('p', '1'), ('q', '2')], ['n', 'm']) if ix.multi else PLAIN
                t = placed(ix, axis, other)
                judge(ctx, res, skipped, 'simple', B + 'convert_to_SimpleIndex', {'data': t, 'axis': axis, 'inplace': inplace}, ('value', placed(new, axis, other)), f'{what}, {how}', same=named, after=either(placed(new, axis, other), inplace))
            for what, ix in {**FLAT, 'levels': DEEP['three levels'], 'levels with dashes': Ix([('a-1', 'b'), ('c-2', 'd-e'), ('-3', '')])}.items():
                new = split(ix)
                other = Ix(['u-1', 'v-2'])
                t = placed(ix, axis, other)
                judge(ctx, res, skipped, 'levels', B + 'convert_to_MultiIndex', {'data': t, 'axis': axis, 'inplace': inplace}, ('value', placed(new, axis, other)), f'{what}, {how}', same=frames_alike, after=either(placed(new, axis, other), inplace))
    for f, ix, rule in (('convert_to_SimpleIndex', DEEP['three levels'], 'simple'), ('convert_to_MultiIndex', FLAT['three parts'], 'levels')):
        for axis in (2, -1, None):
            judge(ctx, res, skipped, rule, B + f, {'data': placed(ix, 0), 'axis': axis, 'inplace': False}, ('raised', ('ValueError',)), f'axis {axis}')
    s = Ser(DEEP['three levels'], [1.0, 2.0, 3.0])
    judge(ctx, res, skipped, 'simple', B + 'convert_to_SimpleIndex', {'data': s, 'axis': 0, 'inplace': False}, ('value', Ser(Ix(['PFA-1-2', 'PID-2-1', 'A--b']), [1.0, 2.0, 3.0])), 'series', same=frames_alike, after=unchanged)
    s = Ser(FLAT['different parts'], [1.0, 2.0, 3.0])
    judge(ctx, res, skipped, 'levels', B + 'convert_to_MultiIndex', {'data': s, 'axis': 0, 'inplace': False}, ('value', Ser(split(FLAT['different parts']), [1.0, 2.0, 3.0])), 'series', same=frames_alike, after=unchanged)


def split(ix):
    if ix.multi:
        return ix
    parts = [str(v).split('-') for v in ix.vals]
    n = max(len(p) for p in parts)
    return ix if n == 1 else Ix([(*p, *[''] * (n - len(p))) for p in parts], [None] * n)


def either(new, inplace):
    """A copy leaves the table, otherwise the table itself is converted."""
    return (lambda params, _kept: frames_alike(params['data'], new)) if inplace else unchanged


# -- factors ------------------------------------------------------------------------------------
def scaled(ctx, res, skipped):
    ix = Ix([('a', '1', 'x'), ('a', '2', 'y'), ('b', '1', 'x'), ('b', '2', 'y'), ('c', '1', 'y')], ['cmp', 'loc', 'dir'])
    q = B + 'multiply_factor_multiple_levels'
    for axis in (0, 1):
        for cond in ({}, {'cmp': 'a'}, {'loc': '1'}, {'cmp': 'b', 'dir': 'y'}, {'cmp': 'a', 'loc': '1', 'dir': 'x'}, {'cmp': 'c', 'loc': '2'}, {'dir': 'z'}):
            hit = [all(dict(zip(ix.names, v))[k] == w for k, w in cond.items()) for v in ix.vals]
            for must in (True, False):
                t = placed(ix, axis)
                new = placed(ix, axis)
                new.rows = [[x * (3.0 if (hit[i] if axis == 0 else hit[j]) else 1.0) for j, x in enumerate(r)] for i, r in enumerate(new.rows)]
                want = ('raised', ('ValueError',)) if must and not any(hit) else ('value', None)
                judge(
                    ctx, res, skipped, 'scaled', q, {'df': t, 'conditions': cond, 'factor': 3.0, 'axis': axis, 'raise_missing': must}, want, f'{cond}, axis {axis}{"" if must else ", if any"}',
                    after=lambda params, _k, new=new: frames_alike(params['df'], new),
                )
    judge(ctx, res, skipped, 'scaled', q, {'df': placed(ix, 0), 'conditions': {}, 'factor': 3.0, 'axis': 2, 'raise_missing': False}, ('raised', ('ValueError',)), 'axis 2')


# -- unique rows ------------------------------------------------------------------------------------
def unique(ctx, res, skipped):
    rows = [('b', '1'), ('a', '2'), ('b', '1'), ('a', '1'), ('b', '1'), ('a', '2')]
    for kind in ('builtins.str', 'builtins.int'):
        from ..lframe import Const

        count, out = {}, []
        for i, r in enumerate(rows):
            n = count[r] = count.get(r, -1) + 1
            out.append(((*r, str(n) if kind.endswith('str') else n), [float(i), i + 0.5]))
        out.sort(key=lambda x: x[0])
        t = Frame(Ix(rows, ['cmp', 'loc']), Ix(['p', 'q']), [[float(i), i + 0.5] for i in range(len(rows))])
        want = Frame(Ix([r for r, _v in out], ['cmp', 'loc', 'uid']), Ix(['p', 'q']), [v for _r, v in out])
        judge(ctx, res, skipped, 'unique', B + 'dedupe_index', {'dataframe': t, 'dtype': Const(kind)}, ('value', want), f'repeated rows, {kind.split(".")[1]}', same=named, after=unchanged)


# -- statistics --------------------------------------------------------------------------------------
DATA = {'a': [1.0, 2.0, 4.0, 8.0], 'b': [-1.0, 2.0, 3.0, 5.0], 'c': [0.0, 1.0, 2.0, 5.0], 'd': [1e-12, 3.0, 1e-6, 7.0]}


def spread(x):
    m = sum(x) / len(x)
    return math.sqrt(sum((v - m) ** 2 for v in x) / (len(x) - 1))


class Described(Frame):
    """A table that can be described."""


def quantile(x, p):
    x = sorted(x)
    r = p * (len(x) - 1)
    i = int(r)
    return x[i] + (r - i) * (x[min(i + 1, len(x) - 1)] - x[i])


def statistics(ctx, res, skipped):
    q = B + 'describe'
    per = [0.1, 0.5, 0.9]
    stats = ['count', 'mean', 'std', 'min', '10%', '50%', '90%', 'max']

    def described(cols, got):
        used = [v for v in got if not isinstance(v, (float, int))]
        if used or sorted(got) != per:
            raise Undecided('percentiles')
        return [[float(len(c)), sum(c) / len(c), spread(c), min(c), *[quantile(c, p) for p in per], max(c)] for c in cols]

    old = Frame.m_describe if hasattr(Frame, 'm_describe') else None

    def m_describe(self, percentiles=None, **kw):
        if kw:
            raise Undecided('describe')
        cols = [[r[j] for r in self.rows] for j in range(len(self.columns))]
        return Frame(Ix(stats), self.columns, [list(r) for r in zip(*described(cols, list(percentiles or ())))])

    Frame.m_describe = m_describe
    try:
        for what, keys in (('a table', list(DATA)), ('levels', [('p', '1'), ('p', '2'), ('q', '1'), ('q', '2')])):
            vals = list(DATA.values())
            t = Frame(Ix(list(range(4))), Ix(keys), [list(r) for r in zip(*vals)])
            one(ctx, res, skipped, q, t, per, stats, keys, vals, what)
        one(ctx, res, skipped, q, Ser(Ix(list(range(4))), DATA['a'], 'a'), per, stats, ['a'], [DATA['a']], 'a positive series')
        one(ctx, res, skipped, q, Ser(Ix(list(range(4))), DATA['c'], 'c'), per, stats, ['c'], [DATA['c']], 'a series with zero')
        one(ctx, res, skipped, q, Arr((4,), DATA['a']), per, stats, [0], [DATA['a']], 'a vector')
        one(ctx, res, skipped, q, Arr((4, 2), [x for r in zip(DATA['a'], DATA['b']) for x in r]), per, stats, [0, 1], [DATA['a'], DATA['b']], 'a matrix')
    finally:
        if old is None:
            del Frame.m_describe
        else:
            Frame.m_describe = old


def one(ctx, res, skipped, q, data, per, stats, keys, vals, what):
    try:
        got = call(ctx, q, {'data': data, 'percentiles': per})
    except (Undecided, Stopped, Raised) as exc:
        skipped.append(f'statistics: {what}: {type(exc).__name__} {exc}')
        return
    t = got[1]
    if got[0] != 'value' or not isinstance(t, Frame):
        res.check('statistics', False, what, q, f'{what}: no table of statistics')
        return
    head = [*stats[:3], 'log_std', *stats[3:]]
    ok = list(t.index.vals) == head and list(t.columns.vals) == list(keys)
    res.check('statistics', ok, f'{what}: rows and columns', q, f'{what}: the statistics are {t.index.vals} of {t.columns.vals}'[:200])
    if not ok:
        return
    for j, (k, c) in enumerate(zip(keys, vals)):
        want = [float(len(c)), sum(c) / len(c), spread(c), spread([math.log(x) for x in c]) if min(c) > 0 else NAN, min(c), *[quantile(c, p) for p in per], max(c)]
        have = [r[j] for r in t.rows]
        for s, a, b in zip(head, have, want):
            res.check('statistics', value_alike(a, b), f'{what}: {k}, {s}', q, f'{what}: {s} of {k} is {a} instead of {b}')


# -- results ------------------------------------------------------------------------------------------
def nested(cols, rows, index):
    """Nested dictionaries of a table."""
    if all(not isinstance(c, tuple) for c in cols):
        out = {}
        for j, c in enumerate(cols):
            col = [r[j] for r in rows]
            out[c] = [float(v) for v in col] if all(str(i).isnumeric() for i in index) else dict(zip(index, col))
        return out
    out = {}
    for c in dict.fromkeys(c[0] for c in cols):
        js = [j for j, x in enumerate(cols) if x[0] == c]
        rest = [cols[j][1:] for j in js]
        sub = [[r[j] for j in js] for r in rows]
        if len(rest[0]) == 1:
            rest = [r[0] for r in rest]
        if rest == ['']:
            out[c] = nested([c], sub, index)[c]
        else:
            out[c] = nested(rest, sub, index)
    return out


TABLES = {
    'a table of realizations': (['p', 'q'], [0, 1, 2]),
    'a table of statistics': (['p', 'q'], ['mean', 'std']),
    'quantiles': (['p', 'q'], ['10%', '90%']),
    'names that begin with numbers': (['p'], ['1st', '2nd', '3']),
    'mixed rows': (['p'], ['0', '1', 'Units']),
    'text numbers': (['p'], ['0', '1', '10']),
    'two levels': ([('a', 'x'), ('a', 'y'), ('b', 'x')], [0, 1]),
    'two levels of statistics': ([('a', 'x'), ('a', 'y'), ('b', 'x')], ['mean', 'max']),
    'three levels': ([('a', 'x', '1'), ('a', 'x', '2'), ('a', 'y', '1'), ('b', 'x', '3')], [0, 1]),
    'an empty level': ([('a', ''), ('b', 'x')], [0, 1]),
}


def converted(ctx):
    def f(*a, **kw):
        got = call(ctx, DL + 'convert_df_to_dict', {'axis': 1, **bound(ctx, DL + 'convert_df_to_dict', a, kw)}, {'convert_df_to_dict': f}, ('convert_df_to_dict',))
        if got[0] == 'raised':
            raise Raised(got[1], got[1])
        return got[1]

    return f


def results(ctx, res, skipped):
    q = DL + 'convert_df_to_dict'
    for what, (cols, index) in TABLES.items():
        for axis in (1, 0):
            t = table(Ix(index), Ix(cols))
            want = nested(cols, t.rows, index)
            t = t if axis == 1 else t.a_T
            judge(ctx, res, skipped, 'result', q, {'data': t, 'axis': axis}, ('value', want), f'{what}, axis {axis}', {'convert_df_to_dict': converted(ctx)}, ('convert_df_to_dict',), after=unchanged)
    for axis in (2, -1):
        judge(ctx, res, skipped, 'result', q, {'data': table(Ix([0]), Ix(['a'])), 'axis': axis}, ('raised', ('ValueError',)), f'axis {axis}', {'convert_df_to_dict': converted(ctx)}, ('convert_df_to_dict',))


# -- interpolation --------------------------------------------------------------------------------------
def interpolation(ctx, res, skipped):
    q = B + 'stringterpolation'
    made = []

    def interp1d(*a, **kw):
        made.append({**dict(zip(('x', 'y', 'kind'), a)), **kw})
        return Any()

    for text, y, x in (('1,2.5,0|0,10,20', [1.0, 2.5, 0.0], [0.0, 10.0, 20.0]), ('5.0,1|3,4', [5.0, 1.0], [3.0, 4.0])):
        made.clear()
        try:
            got = call(ctx, q, {'arguments': text}, {'interp1d': interp1d})
        except (Undecided, Stopped, Raised) as exc:
            skipped.append(f'interpolation: {text}: {type(exc).__name__} {exc}')
            continue
        if not made:
            skipped.append(f'interpolation: {text}: another function')
            continue
        m = made[-1]
        ok = got[0] == 'value' and value_alike(list(getattr(m.get('x'), 'flat', ())), x) and value_alike(list(getattr(m.get('y'), 'flat', ())), y) and m.get('kind', 'linear') == 'linear'
        res.check('interpolation', ok, text, q, f'{text}: the function interpolates {m}'[:200])
