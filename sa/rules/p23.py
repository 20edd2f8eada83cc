"""P23: the contents of the result files of a damage and loss calculation."""

from __future__ import annotations

import math

from ..ceval import Raised, Undecided
from ..dlworld import ALL, FILES, MOD, REAL, STATS, aggregate, config, samples, stat, start
from ..lframe import Frame, Sym, Txt, isnan
from ..trace import Stopped

EXPLANATION = (
    'The calculation is followed from the samples of its models to its result files. The samples are small tables with distinct values '
    'in every cell, missing values and several locations, directions, component blocks and damage states; every file is compared with '
    'sums, governing damage states and statistics that are computed from their definition, cell by cell.'
)
FULL = {p: dict.fromkeys(r, True) for p, r in ALL.items()}
MODEL = {'Demand': 'demand', 'Asset': 'asset', 'Damage': 'damage', 'Loss': 'loss'}
STAGES = ('demand', 'asset', 'damage', 'loss')


def run(ctx, res):
    res.rule('sample', 'sample files hold the sample of their model, with its units', 0)
    res.rule('statistics', 'statistics files hold the statistics of the sample they belong to, with its units', 0)
    res.rule('grouped', 'grouped results are the sums or the governing damage states of their groups, and missing only if all members are missing', 0)
    res.rule('summary', 'the summary holds the aggregate losses and the collapse and irreparable damage of every realization', 0)
    res.rule('json', 'JSON files hold the numbers of the CSV files of the same name', 0)
    skipped = []
    for args in cases():
        try:
            case(ctx, res, skipped, *args)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{args[0]}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{args[0]}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def cases():
    for agg in (True, False):
        for cond in (True, False):
            for simple in (True, False):
                s = {'AggregateColocatedComponentResults': agg, 'CondenseDS': cond, 'SimpleIndexInJSON': simple}
                tag = ', '.join(k for k, v in s.items() if v) or 'no settings'
                yield tag, FULL, s, STAGES, True, True
    s = {'AggregateColocatedComponentResults': True, 'CondenseDS': False, 'SimpleIndexInJSON': False}
    for c in (False, 'collapse', 'irreparable'):
        yield f'{"no" if c is False else c} column', {}, s, STAGES, c, True
    yield 'no losses', {k: v for k, v in FULL.items() if k != 'Loss'}, s, STAGES[:3], True, True
    yield 'no damage', {k: v for k, v in FULL.items() if k in ('Demand', 'Asset')}, s, STAGES[:2], True, True
    for part, r in ALL.items():
        for x in r:
            for cond in (False, True) if part == 'Damage' else (False,):
                yield f'only {part} {x}{" condensed" if cond else ""}', {part: {x: True}}, {**s, 'CondenseDS': cond, 'AggregateColocatedComponentResults': False}, STAGES, True, False


# -- expected tables ----------------------------------------------------------------
class Tab:
    """Values of a sample by label, and units."""

    def __init__(self, names, cols, units):
        self.names, self.cols, self.units = names, cols, units

    @staticmethod
    def of(t, u):
        return Tab(list(t.columns.names), {c: [r[j] for r in t.rows] for j, c in enumerate(t.columns.vals)}, dict(zip(u.index.vals, u.vals)) if u is not None else None)

    def group(self, names, f):
        at = [self.names.index(n) for n in names]
        g = {}
        for c in self.cols:
            g.setdefault(tuple(c[i] for i in at), []).append(c)
        cols = {k: [f([v for v in (self.cols[c][r] for c in cs) if not isnan(v)]) for r in range(REAL)] for k, cs in g.items()}
        return Tab(list(names), cols, {k: self.units[cs[0]] for k, cs in g.items()})

    def condense(self):
        cols = {c: [v if isnan(v) else float(c[self.names.index('ds')]) * (v > 0) for v in vs] for c, vs in self.cols.items()}
        return Tab(self.names, cols, self.units).group(['cmp', 'loc'], lambda v: max(v, default=math.nan))

    def sample(self):
        return {label(c): {**dict(enumerate(vs)), **self.unit(c)} for c, vs in self.cols.items()}

    def stats(self):
        return {label(c): {**{s: stat(s, vs) for s in STATS}, **self.unit(c)} for c, vs in self.cols.items()}

    def unit(self, c):
        return {'Units': self.units[c]} if self.units is not None else {}


def label(c):
    return '-'.join(c) if isinstance(c, tuple) else c


def total(vs):
    return sum(vs) if vs else math.nan


def expected(settings, stages, collapse):
    """Content of every file: column, row, value."""
    t = {k: Tab.of(*v) for k, v in samples(collapse).items()}
    if settings['AggregateColocatedComponentResults']:
        for k in ('asset', 'damage', 'loss'):
            t[k] = t[k].group([n for n in t[k].names if n != 'uid'], total)
    grp = {'Loss': t['loss'].group(['dv', 'loss', 'dmg'], total)}
    byloc = t['damage'].group(['cmp', 'loc', 'ds'], total)
    grp['Damage'] = byloc.condense() if settings['CondenseDS'] else byloc.group(['cmp'], total)
    out = {}
    for (part, x), f in FILES.items():
        if part == 'Loss' and 'loss' not in stages or part == 'Damage' and 'damage' not in stages:
            continue
        if x.startswith('Agg'):
            continue
        tab = grp[part] if x.startswith('Grouped') else t[MODEL[part]]
        out[f] = tab.sample() if x.endswith('Sample') else tab.stats()
    agg = Tab([None, None], {('-'.join(c) if c[1] else c[0] + '-'): [r[j] for r in aggregate().rows] for j, c in enumerate(aggregate().columns.vals)}, None)
    cols = {}
    if 'loss' in stages:
        out['DV_repair_agg.zip'] = agg.sample()
        out['DV_repair_agg_stats.csv'] = agg.stats()
        cols.update(agg.cols)
    if 'damage' in stages:
        s = Tab.of(*samples(collapse)['damage']).group(['cmp', 'ds'], total)
        for c in ('collapse', 'irreparable'):
            cols[c] = s.cols.get((c, '1'), [0.0] * REAL)
    out['DL_summary.csv'] = Tab([None], cols, None).sample()
    out['DL_summary_stats.csv'] = Tab([None], cols, None).stats()
    return out


def got(t):
    return {label(c): {row(i): t.rows[k][j] for k, i in enumerate(t.index.vals)} for j, c in enumerate(t.columns.vals)}


def row(i):
    s = str(i)
    return int(s) if s.isnumeric() else 'Units' if s.lower() == 'units' else s


def same(a, b):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a == b
    return type(a) is type(b) and a == b


def norm(d):
    """Labels without the trailing separators of empty levels."""
    return {c.rstrip('-'): v for c, v in d.items()}


def differ(have, want):
    have, want = norm(have), norm(want)
    if set(have) != set(want):
        return f'columns {sorted(set(have) ^ set(want))[:3]}'
    for c, w in want.items():
        h = have[c]
        if set(h) != set(w):
            return f'rows {sorted(map(str, set(h) ^ set(w)))[:3]} of {c}'
        for r, v in w.items():
            if not same(h[r], v):
                return f'{c}, {r}: {show(h[r])} instead of {show(v)}'
    return None


def show(v):
    return f'text {v.v}' if isinstance(v, Txt) else f'the {v.k[1][0]} of {list(v.k[1][1])}' if isinstance(v, Sym) and v.k[0] == 'stat' else str(v)


def flatten(tree, simple):
    """Content of a JSON file."""
    tree = dict(tree)
    units = tree.pop('Units', None)
    out = {}

    def leaf(p, v):
        if isinstance(v, (list, tuple)):
            out['-'.join(p)] = dict(enumerate(v))
        else:
            out['-'.join(p)] = {row(k): x for k, x in v.items()}

    def rec(p, v):
        if isinstance(v, dict) and v and all(isinstance(x, (dict, list, tuple)) for x in v.values()):
            for k, x in v.items():
                rec((*p, str(k)), x)
        elif isinstance(v, (dict, list, tuple)):
            leaf(p, v)
        else:
            raise Undecided('json')

    for k, v in tree.items():
        if simple and isinstance(v, dict) and any(isinstance(x, (dict, list)) for x in v.values()):
            out[str(k)] = {'nested': 1}
            continue
        rec((str(k),), v)
    out = norm(out)
    for c, u in (units or {}).items():
        if str(c).rstrip('-') not in out:
            out[str(c).rstrip('-')] = {}
        out[str(c).rstrip('-')]['Units'] = u
    return out


def case(ctx, res, skipped, tag, outputs, settings, stages, collapse, json):
    fn = ctx.repo.funcs.get(MOD + 'run_pelicun')
    at = f'{fn.module.path}:{fn.node.lineno}' if fn is not None and hasattr(fn.module, 'path') else MOD + 'run_pelicun'
    tr, w = start(ctx, config(outputs, True, json, stages, settings), collapse=collapse)
    try:
        tr.run()
    except (Undecided, Raised) as exc:
        skipped.append(f'{tag}: {exc}')
        return
    if tr.raised:
        res.check('sample', False, tag, at, f'the calculation raises {tr.raised.name}')
        return
    want = expected(settings, stages, collapse)
    for f, content in want.items():
        t = w.files.get(f'/out/{f}')
        if t is None:
            continue
        if not isinstance(t, Frame):
            skipped.append(f'{tag}: {f}')
            continue
        rule = 'summary' if f.startswith('DL_') else 'grouped' if '_grp' in f else 'statistics' if 'stats' in f else 'sample'
        d = differ(got(t), content)
        res.check(rule, d is None, f'{f} ({tag})', at, d or '')
        j = w.files.get(f'/out/{f.rsplit(".", 1)[0]}.json')
        if j is None:
            continue
        if not isinstance(j, dict):
            skipped.append(f'{tag}: {f} JSON')
            continue
        d = differ(flatten(j, settings['SimpleIndexInJSON']), got(t))
        res.check('json', d is None, f'{f} ({tag})', at, d or '')


__all__ = ['run']
