"""P22: results of a regional simulation belong to the building they are reported for."""

from __future__ import annotations

import fnmatch
from pathlib import PurePosixPath

from .. import vq
from ..ceval import NO, Raised, Undecided
from ..lframe import NAN, Arr, Frame, FTrace, Ix, Obj, Ser, Sym, isnan, seq
from ..trace import Stopped, Trace

EXPLANATION = (
    'The operations of the regional simulation are followed on small tables whose cells carry the building, the intensity measure, the grid '
    'point and the realization they belong to: the interpolation at the grid points, the tables handed to the assessment, the extraction of '
    'damage states and losses, the chunks and their files, and the tables written at the end.'
)
MOD = 'pelicun.tools.regional_sim.'
OPAQUE = (
    'pelicun.assessment', 'pelicun.model.damage_model', 'pelicun.model.demand_model', 'pelicun.model.asset_model', 'pelicun.model.loss_model',
    'pelicun.model.pelicun_model', 'pelicun.auto', 'pelicun.base', 'pelicun.file_io', 'NNR',
)
EQ = 'Hazus Earthquake - Buildings'


def run(ctx, res):
    res.rule('demand', 'the demands of a building are its interpolated intensity measures, in their units', 0)
    res.rule('model', 'every building is assigned its own component at its own location', 0)
    res.rule('damage', 'the damage state reported for a building is the one of its component', 0)
    res.rule('loss', 'the losses reported for a building are those of its component, and zero without damage', 0)
    res.rule('chunks', 'every building of the inventory is evaluated once and reported under its identifier', 0)
    res.rule('filter', 'the filter selects exactly the listed buildings', 0)
    skipped = []
    for what, f in (('filter text', texts), ('inventory', inventory), ('buildings', buildings)):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{what}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def chk(res, rule, ok, w, msg, tag):
    return res.check(rule, ok, tag, w, msg)


def where(ctx, name):
    f = ctx.repo.funcs.get(MOD + name)
    return f'{f.module.path}:{f.node.lineno}' if f is not None and hasattr(f.module, 'path') else MOD + name


# -- filter -----------------------------------------------------------------------
TEXTS = {
    '1': [1], '3,1': [1, 3], '2-4': [2, 3, 4], '1, 3-5, 8': [1, 3, 4, 5, 8], '5,5,4-6': [4, 5, 6], '7-7': [7], '1,,2': [1, 2], ' 2 - 3 ,9': [2, 3, 9],
    '10,9,100': [9, 10, 100], '8-11': [8, 9, 10, 11], '1,2,': [1, 2], '12-14,13-15': [12, 13, 14, 15], '0': [0], '0-1': [0, 1],
    '5-3': 'ValueError', '1,a': 'ValueError', '8a': 'ValueError', '1-b': 'ValueError', '1.5': 'ValueError', '2-4-6': 'ValueError', 'x-3': 'ValueError', '1;2': 'ValueError',
}


def texts(ctx, res, skipped):
    ip = ctx.interp(MOD + 'parse_id_filter', key='p22f')
    for text, want in TEXTS.items():
        def leaf(_t, n, text=text):
            return text if n.op == 'param' else NO

        try:
            t = Trace(ip, leaf, lambda _t, _e: NO, strict=True).run()
            got = t.raised.name if t.raised else t.ev(t.result)
        except (Undecided, Raised) as exc:
            skipped.append(f'filter {text!r}: {exc}')
            continue
        ok = got == want if isinstance(want, str) else isinstance(got, list) and sorted(got) == want and len(got) == len(want)
        chk(res, 'filter', ok, f'{MOD}parse_id_filter', f'the filter {text!r} selects {got!r} instead of {want!r}', f'filter {text!r}')


# -- one chunk ----------------------------------------------------------------------
IMS = {'SA_1.0': 'g', 'PGA': 'g2', 'CAV': 'mps'}
POINTS = ['far', 'near', 'mid']
BLD = {7: ('A', 'RES'), 3: ('B', 'COM'), 12: ('A', 'COM'), 5: ('A', 'RES'), 20: ('B', 'RES')}
STATES = {7: [0, 2, 1], 3: [1, 0, 1], 12: [2, 2, 0], 5: [0, 0, 0], 20: [0, 0, 0]}
PRIMES = {}


def value(dv, loss, ds):
    k = (dv, loss, ds)
    if k not in PRIMES:
        PRIMES[k] = 1000 + 37 * len(PRIMES)
    return PRIMES[k]


class Part(Obj):
    """A model of the assessment."""

    def __init__(self, world, name):
        self.world, self.name = world, name

    @property
    def a_sample(self):
        raise Undecided('sample')


class Demand(Part):
    def m_load_sample(self, s):
        self.world.demands = s

    def m_calibrate_model(self, c):
        self.world.calibrated = c

    def m_generate_sample(self, c):
        self.world.generated = c


class Asset(Part):
    def m_load_cmp_model(self, c):
        self.world.marginals = c

    def m_generate_cmp_sample(self, *_a, **_kw):
        return None

    def m_list_unique_component_ids(self, **_kw):
        return ['LF.A', 'LF.B']


class Damage(Part):
    def m_load_model_parameters(self, *_a, **_kw):
        return None

    def m_calculate(self, *_a, **_kw):
        self.world.damage = self.world.damages()

    def m_save_sample(self, *a, save_units=False, **kw):
        if a or kw:
            raise Undecided('save_sample')
        s = self.world.damage
        if s is None:
            raise Undecided('damage')
        return (s.m_copy(), Ser(s.columns, ['ea'] * len(s.columns), 'Units')) if save_units else s.m_copy()

    def m_load_sample(self, s):
        if not isinstance(s, Frame) or s.columns.names != LEVELS:
            raise Undecided('damage sample')
        self.world.damage = s.m_copy()


class Loss(Part):
    def s_decision_variables(self, v):
        self.world.dvs = list(v)

    def m_add_loss_map(self, m=None, loss_map_policy=None):
        self.world.map = m if m is not None else loss_map_policy

    def m_load_model_parameters(self, *_a, **_kw):
        return None

    def m_calculate(self, *_a, **_kw):
        self.world.losses = self.world.compute()

    def m_save_sample(self, *a, save_units=False, **kw):
        if a or kw:
            raise Undecided('save_sample')
        s = self.world.losses
        if s is None:
            raise Raised('AttributeError', 'AttributeError')
        return (s.m_copy(), Ser(s.columns, ['u'] * len(s.columns), 'Units')) if save_units else s.m_copy()


LEVELS = ['cmp', 'loc', 'dir', 'uid', 'ds']


class Asm(Obj):
    def __init__(self, world):
        self.world = world
        self.a_demand, self.a_asset, self.a_damage, self.a_loss = Demand(world, 'demand'), Asset(world, 'asset'), Damage(world, 'damage'), Loss(world, 'loss')


class Chunk:
    """The surroundings of the evaluation of one chunk."""

    def __init__(self, ctx, method, time=True, points=3, n_real=2, n_demand=5):
        self.ctx, self.method, self.time, self.n_demand = ctx, method, time, n_demand
        self.options, self.demands, self.calibrated, self.generated, self.marginals = {}, None, None, None, None
        self.damage, self.dvs, self.map, self.losses = None, None, None, None
        ids = list(BLD)
        self.chunk = Frame(
            Ix(ids, ['id']), Ix(['Latitude', 'StructureType', 'OccupancyClass', 'Longitude']),
            [[('lat', b), BLD[b][0], BLD[b][1], ('lon', b)] for b in ids],
        )
        pts = POINTS[:points]
        self.points = Frame(Ix(range(len(pts))), Ix(['GP_file', 'Longitude', 'Latitude']), [[f'{p}.csv', ('x', p), ('y', p)] for p in pts])
        cols = [(i, im) for i in range(len(pts)) for im in IMS]
        self.data = Frame(Ix(range(n_real)), Ix(cols, [None, None]), [[('im', pts[i], im, r) for i, im in cols] for r in range(n_real)])
        self.n_real, self.pts = n_real, pts
        self.asm = Asm(self)
        self.functions = {'unique_list': self.unique_list}
        self.inputs = []

    must = ('auto_populate', 'load_sample', 'save_sample', 'calculate', 'load_cmp_model', 'generate_sample', 'calibrate_model', 'add_loss_map', 'load_model_parameters')

    def unique_list(self, x):
        ip = self.ctx.interp(MOD + 'unique_list', key='p22u')
        t = FTrace(ip, lambda _t, n: x if n.op == 'param' else NO).run()
        return t.ev(t.result)

    def damages(self):
        every = bool(self.options.get('ListAllDamageStates'))
        cols, vals = [], []
        for b in sorted(BLD, key=lambda b: (BLD[b][0], str(b))):
            for ds in (0, 1, 2):
                v = [1.0 if s == ds else 0.0 for s in STATES[b]]
                if every or any(v):
                    cols.append(('LF.' + BLD[b][0], str(b), '1', '0', str(ds)))
                    vals.append(v)
        return Frame(Ix(range(3)), Ix(cols, LEVELS), [[v[r] for v in vals] for r in range(3)])

    def compute(self):
        if self.damage is None or self.dvs is None or self.map is None:
            raise Undecided('losses before their inputs')
        cols, vals = [], []
        for dv in self.dvs:
            for j, (cmp, loc, way, uid, ds) in enumerate(self.damage.columns.vals):
                if ds == '0':
                    continue
                if isinstance(self.map, Frame):
                    if cmp not in self.map.index.vals:
                        continue
                    loss = self.map.get('Repair').get(cmp)
                else:
                    loss = cmp
                cols.append((dv, loss, cmp, ds, loc, way, uid))
                vals.append([value(dv, loss, ds) * r[j] for r in self.damage.rows])
        if not cols:
            return None
        return Frame(Ix(range(3)), Ix(cols, ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']), [[v[r] for v in vals] for r in range(3)])

    def __call__(self, tr, n):  # noqa: C901
        if n.op == 'param':
            p = n.args[-1]
            known = {
                'bldg_df_chunk': self.chunk, 'grid_points': self.points, 'grid_data': self.data, 'n_neighbors': 2, 'sample_size_demand': self.n_demand,
                'sample_size_damage': 3, 'dl_method': self.method, 'im_types': dict(IMS),
            }
            return known[p] if p in known else NO
        if n.op == 'new' and 'Assessment' in str(n.args[0]):
            return self.asm
        if n.op != 'call':
            return NO
        nm = vq.bname(n)
        f = vq.arg
        if nm == 'Assessment':
            return self.asm
        if nm == 'NNR':
            a, kw = tr.args(n)
            names = ['target', 'source', 'known_values', 'sample_size', 'n_neighbors', 'weight', 'seed']
            return self.interpolate(**{**dict(zip(names, a)), **kw})
        if nm == 'substitute_default_path':
            return list(tr.ev(n.args[1][0]))
        if nm == 'auto_populate':
            c = tr.ev(f(n, 'config', 0))
            g = c['GeneralInformation'] if isinstance(c, dict) else None
            g = g.m_to_dict() if isinstance(g, Ser) else g
            if not isinstance(g, dict) or 'StructureType' not in g:
                raise Undecided('auto_populate')
            self.inputs.append(g)
            cmp = Frame(Ix(['LF.' + g['StructureType']]), Ix(['Units', 'Location', 'Direction', 'Theta_0', 'Family']), [['ea', '1', '1', '1', 'N/A']])
            return {'DL': {'Losses': {'Repair': {'DecisionVariables': {'Cost': True, 'Carbon': False, 'Time': self.time}}}}}, cmp
        return NO

    def interpolate(self, target, source, known_values, sample_size=-1, n_neighbors=4, weight='distance2', seed=None):
        if not all(isinstance(x, Arr) for x in (target, source, known_values)) or len(known_values.shape) != 3:
            raise Undecided('interpolation')
        s, nf, nr = known_values.shape
        if source.shape[0] != s:
            raise Raised('ValueError', 'ValueError')
        out = []
        for b in range(target.shape[0]):
            for i in range(nf):
                for r in range(nr):
                    near = frozenset((tuple(source.get(k).flat), known_values.at((k, i, r))) for k in range(s))
                    out.append(Sym('interpolated', (sample_size, n_neighbors, tuple(target.get(b).flat), near)))
        return Arr((target.shape[0], nf, nr), out)

    def expected(self, b, im, r):
        near = frozenset(((('x', p), ('y', p)), ('im', p, im, r % self.n_real)) for p in self.pts)
        return Sym('interpolated', (-1, 2, (('lon', b), ('lat', b)), near))


def effects(world):
    def effect(tr, e):
        if e.kind == 'call' and e.ctx is not None and e.ctx[0] in ('opaque', 'new') and e.node is not None:
            n = e.node
            if vq.bname(n) == 'Assessment' or n.op in ('clsref', 'cls') and 'Assessment' in str(n.args[0]):
                args = n.args[1] if n.op == 'call' else e.value or ()
                c = args[-1] if args else None
                if c is None:
                    raise Undecided('assessment without options')
                o = tr.ev(c)
                world.options = dict(o) if isinstance(o, dict) else {}
        if e.kind == 'yield':
            raise Undecided('generator')
        return NO

    return effect


def buildings(ctx, res, skipped):
    ip = ctx.interp(MOD + 'process_buildings_chunk', opaque=OPAQUE, key='p22b')
    w = MOD + 'process_buildings_chunk'
    for method, time in ((EQ, True), ('Hazus Hurricane Wind - Buildings', True), ('Hazus Hurricane Wind - Buildings', False)):
        for n_demand, n_real in ((5, 2), (2, 2)) if method == EQ else ((2, 2),):
            world = Chunk(ctx, method, time, n_real=n_real, n_demand=n_demand)
            t = FTrace(ip, world, effects(world))
            try:
                t.run()
            except (Undecided, Raised, Stopped) as exc:
                skipped.append(f'{method}: {exc}')
                continue
            tag = 'earthquake' if method == EQ else 'hurricane' + ('' if time else ' without times')
            demands(world, res, skipped, w, tag)
            model(world, res, skipped, w, tag)
            if t.raised:
                if t.raised.name in ('KeyError', 'AttributeError') and t.raised.event is not None:
                    chk(res, 'loss', False, t.raised.event.where(), f'{t.raised.name} for a building that is not damaged in any realization ({tag})', f'{tag}: undamaged')
                else:
                    skipped.append(f'{tag}: {t.raised.name} {t.raised.event.where() if t.raised.event is not None else ""}')
                continue
            try:
                r = t.ev(t.result)
            except (Undecided, Raised) as exc:
                skipped.append(f'{tag} result: {exc}')
                parts = list(t.result.args) if t.result is not None and t.result.op == 'tuple' else []
                r = []
                for x in parts:
                    try:
                        r.append(t.ev(x))
                    except (Undecided, Raised):
                        r.append(NO)
            if len(r) != 4:
                skipped.append(f'{tag}: results')
                continue
            outputs(world, res, skipped, w, tag, r)


def demands(world, res, skipped, w, tag):
    d = world.demands
    if not isinstance(d, Frame):
        skipped.append(f'{tag}: demand sample')
        return
    want = {f'{im}-{b}-1': (b, im) for b in BLD for im in IMS}
    chk(res, 'demand', sorted(map(str, d.columns.vals)) == sorted(want), w, 'the demands are not given for every building and intensity measure', f'{tag}: columns')
    rows = [i for i, k in enumerate(d.index.vals) if k != 'Units']
    units = [i for i, k in enumerate(d.index.vals) if k == 'Units']
    chk(res, 'demand', len(rows) == world.n_demand, w, f'{len(rows)} demand realizations instead of {world.n_demand}', f'{tag}: realizations')
    bad = None
    for j, c in enumerate(d.columns.vals):
        if c not in want:
            continue
        b, im = want[c]
        for r, i in enumerate(rows[: world.n_demand]):
            x = d.rows[i][j]
            if x != world.expected(b, im, r):
                bad = bad or (c, r, x)
    chk(res, 'demand', bad is None, w, f'the demand {bad[0]} of realization {bad[1]} is not the intensity measure interpolated for the building' if bad else '', f'{tag}: values')
    ok = len(units) == 1 and all(d.rows[units[0]][j] == IMS[want[c][1]] for j, c in enumerate(d.columns.vals) if c in want)
    chk(res, 'demand', ok, w, 'an intensity measure does not have its unit', f'{tag}: units')
    g = world.generated
    if isinstance(g, dict):
        ok = g.get('SampleSize') == 3 and g.get('PreserveRawOrder') is True
        chk(res, 'demand', ok, w, 'the demands of the buildings are not sampled together in the order of the realizations', f'{tag}: order')


def model(world, res, skipped, w, tag):
    m = world.marginals
    m = m.get('marginals') if isinstance(m, dict) else m
    if not isinstance(m, Frame):
        skipped.append(f'{tag}: components')
        return
    want = {}
    for b, (s, _o) in BLD.items():
        want.setdefault('LF.' + s, set()).add(str(b))
    try:
        got = {}
        for k, x in zip(m.index.vals, seq(m.get('Location'))):
            got.setdefault(k, []).extend(y.strip() for y in str(x).split(','))
        th = [str(x) for x in seq(m.get('Theta_0'))]
    except (Raised, Undecided) as exc:
        skipped.append(f'{tag}: components {exc}')
        return
    ok = {k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()}
    chk(res, 'model', ok, w, f'the locations of the components are {got} instead of {want}', f'{tag}: locations')
    chk(res, 'model', all(x == '1' for x in th), w, 'the quantities of the components are not those of the mapping', f'{tag}: quantities')
    rows = {b: dict(zip(world.chunk.columns.vals, r)) for b, r in zip(world.chunk.index.vals, world.chunk.rows)}
    ok = len(world.inputs) == len(rows) and all(any(all(g.get(k) == v for k, v in r.items()) for g in world.inputs) for r in rows.values())
    chk(res, 'model', ok, w, 'the attributes of a building are not passed to the mapping of its component', f'{tag}: attributes')


def outputs(world, res, skipped, w, tag, r):
    _d, damage, costs, times = r
    if _d is not NO and isinstance(_d, Frame) and isinstance(world.demands, Frame):
        chk(res, 'demand', _d.columns.vals == world.demands.columns.vals and _d.rows == world.demands.rows, w, 'the reported demands are not those of the assessment', f'{tag}: reported')
    if isinstance(damage, Frame):
        bad = differs(damage, {b: STATES[b] for b in BLD})
        chk(res, 'damage', bad is None, w, f'damage states: {bad}', f'{tag}: states')
    else:
        skipped.append(f'{tag}: damage')
    for dv, t in (('Cost', costs), ('Time', times)):
        if dv == 'Time' and not world.time and world.method != EQ:
            if t is not NO:
                chk(res, 'loss', t is None, w, 'repair times are reported that were not requested', f'{tag}: times')
            continue
        if not isinstance(t, Frame):
            if t is None:
                chk(res, 'loss', False, w, f'{dv}: the requested losses are not reported', f'{tag}: {dv}')
            else:
                skipped.append(f'{tag}: {dv}')
            continue
        want = {b: [0 if not s else value(dv, 'LF.' + (BLD[b][1] if world.method == EQ else BLD[b][0]), str(s)) for s in STATES[b]] for b in BLD}
        bad = differs(t, want)
        chk(res, 'loss', bad is None, w, f'{dv}: {bad}', f'{tag}: {dv}')


def differs(t, want):
    """What is wrong with a table of one row for each building."""
    if sorted(map(repr, t.index.vals)) != sorted(map(repr, want)):
        lost = [b for b in want if b not in t.index.vals]
        return f'buildings {lost} are missing' if lost else f'rows {t.index.vals} instead of {list(want)}'
    for b, row in zip(t.index.vals, t.rows):
        for x, y in zip(row, want[b]):
            if isnan(x) or x != y:
                return f'building {b} is given {row} instead of {want[b]}'
        if len(row) != len(want[b]):
            return f'{len(row)} realizations'
    return None


# -- the inventory --------------------------------------------------------------------
class Files:
    """The surroundings of the whole simulation: files, chunks, and their results."""

    def __init__(self, ctx, ids, filt=None, times=True, order=1, grid=None):
        self.ctx, self.ids, self.times, self.order = ctx, ids, times, order
        self.files, self.chunks, self.params = {}, [], []
        b = {'pathToSource': '/in', 'assetSourceFile': 'b.csv'}
        if filt is not None:
            b['filter'] = filt
        self.config = {
            'Applications': {
                'RegionalMapping': {'Buildings': {'ApplicationData': {'samples': 3, 'neighbors': 4}}},
                'DL': {'Buildings': {'ApplicationData': {'Realizations': 2, 'DL_Method': 'M'}}},
                'Assets': {'Buildings': {'ApplicationData': b}},
            },
            'RegionalEvent': {'units': {'SA_1.0': 'g', 'PGA': 'g'}, 'eventFilePath': '/ev', 'eventFile': 'grid.csv'},
        }
        occ = ['RES', 'COM', 'IND']
        self.files['/in/b.csv'] = Frame(Ix(ids, ['id']), Ix(['OccupancyClass', 'Longitude', 'Latitude']), [[occ[(i * 7) % 3], ('lon', b), ('lat', b)] for i, b in enumerate(ids)])
        g = ['c', 'a', 'b', *(f'p{i}' for i in range(9))]
        self.files['/ev/grid.csv'] = Frame(Ix(range(len(g))), Ix(['GP_file', 'Longitude', 'Latitude']), [[f'{p}.csv', ('x', p), ('y', p)] for p in g])
        for p in g:
            self.files[f'/ev/{p}.csv'] = Frame(Ix(range(3)), Ix(['PGA', 'VS30', 'SA_1.0']), [[('im', p, im, r) for im in ('PGA', 'VS30', 'SA_1.0')] for r in range(3)])
        self.g, self.out, self.functions = g, {}, {}

    def read(self, path, index_col=None, nrows=None, **kw):
        path = str(path)
        if any(k not in ('compression', 'encoding', 'low_memory', 'dtype') for k in kw):
            raise Undecided('read_csv')
        if path not in self.files:
            raise Raised('FileNotFoundError', 'FileNotFoundError')
        t = self.files[path]
        if path.startswith('/ev/'):
            if nrows is not None:
                t = Frame(t.index.take(list(range(min(nrows, len(t))))), t.columns, t.rows[:nrows])
            return t.m_copy()
        if index_col == 0:
            return t.m_copy()
        if index_col is None:
            return Frame(Ix(range(len(t))), Ix(['Unnamed: 0', *t.columns.vals]), [[k, *r] for k, r in zip(t.index.vals, t.rows)])
        raise Undecided('index_col')

    def write(self, t, path, kw):
        if any(k not in ('compression', 'encoding', 'index') for k in kw):
            raise Undecided('to_csv')
        ix = t.index.vals if all(isinstance(x, int) for x in t.index.vals) else [str(x) for x in t.index.vals]
        s = Frame(Ix(ix, t.index.names), Ix([str(c) for c in t.columns.vals]), t.rows)
        if kw.get('index') is False:
            s = Frame(Ix([r[0] for r in s.rows]), Ix(s.columns.vals[1:]), [r[1:] for r in s.rows])
        path = str(path)
        if path in self.files and path.startswith('/tmp'):
            self.lost = path
        (self.files if path.startswith('/tmp') else self.out)[path] = s

    def results(self, chunk, im_types, n_demand, n_damage):
        self.chunks.append(chunk)
        ids = chunk.index.vals
        cols = [f'{im}-{b}-1' for b in ids for im in sorted(im_types)]
        dem = Frame(Ix([*range(n_demand), 'Units']), Ix(cols), [[Sym('d', (r, c)) for c in cols] for r in [*range(n_demand), 'Units']])

        def tab(what, keys):
            return Frame(Ix(keys, ['loc']), Ix(range(n_damage)), [[Sym(what, (b, r)) for r in range(n_damage)] for b in keys])

        return dem, tab('damage', sorted(ids)), tab('costs', sorted(ids, reverse=True)), tab('times', sorted(ids)) if self.times else None

    def __call__(self, tr, n):  # noqa: C901
        if n.op == 'param':
            p = n.args[-1]
            for d in reversed(self.params):
                if p in d:
                    return d[p]
            return {'config_file': '/c.json', 'num_cores': 2}.get(p, NO) if not self.params else NO
        if n.op == 'enter':
            x = n.args[0]
            if vq.xcall(x, 'TemporaryDirectory'):
                return '/tmp/t'
            return 'handle'
        if n.op != 'call':
            return NO
        nm = vq.bname(n)
        full = str(vq.callee(n)[1]) if vq.callee(n) else ''
        a = n.args[1]
        r = vq.recv(n)
        if nm == 'load' and full.startswith('json') or nm == 'loads' and full.startswith('json'):
            return self.config
        if nm in ('Path', 'PurePath', 'PurePosixPath') and vq.xcall(n, nm):
            return PurePosixPath(*[str(tr.ev(x)) for x in a])
        if nm == 'time' and vq.xcall(n, 'time'):
            return 0.0
        if nm == 'format_elapsed_time':
            return '0'
        if nm == 'cpu_count':
            return 4
        if nm in ('TemporaryDirectory', 'mkdtemp') and vq.xcall(n, nm):
            return '/tmp/t'
        if nm == 'tqdm' and vq.xcall(n, 'tqdm'):
            return tr.ev(a[0]) if a else 'bar'
        if nm == 'print':
            return None
        if nm == 'read_csv' and vq.xcall(n, 'read_csv'):
            args, kw = tr.args(n)
            return self.read(*args, **kw)
        if nm == 'to_csv' and r is not None:
            t = tr.ev(r)
            args, kw = tr.args(n)
            if not isinstance(t, Frame) or len(args) != 1:
                raise Undecided('to_csv')
            self.write(t, args[0], kw)
            return None
        if nm == 'listdir' and vq.xcall(n, 'listdir'):
            d = str(tr.ev(a[0])).rstrip('/')
            return sorted((p[len(d) + 1:] for p in self.files if p.startswith(d + '/')), reverse=self.order < 0)
        if nm in ('glob', 'iterdir') and r is not None:
            d = tr.ev(r)
            if isinstance(d, PurePosixPath):
                ps = sorted((p for p in self.files if p.startswith(f'{d}/')), reverse=self.order < 0)
                pat = tr.ev(a[0]) if a else '*'
                return [PurePosixPath(p) for p in ps if fnmatch.fnmatch(p[len(str(d)) + 1:], pat)]
        if nm == 'process_buildings_chunk':
            args, kw = tr.args(n)
            f = self.ctx.repo.funcs[MOD + nm]
            names = [x.arg for x in f.node.args.args]
            p = {**dict(zip(names, args)), **kw}
            self.last = p
            self.seen.append(p)
            return self.results(p['bldg_df_chunk'], p['im_types'], p['sample_size_demand'], p['sample_size_damage'])
        if nm == 'Parallel' and vq.xcall(n, nm):
            return 'parallel'
        f = n.args[0]
        if f.op == 'call' and vq.bname(f) == 'delayed' and f.args[1] and f.args[1][0].op == 'fn':
            return ('job', f.args[1][0].args[0], tr.args(n))
        if f.op == 'call' and vq.bname(f) == 'Parallel':
            jobs = tr.ev(a[0])
            if not all(isinstance(j, tuple) and j and j[0] == 'job' for j in jobs):
                raise Undecided('jobs')
            return [self.job(*j[1:]) for j in (jobs if self.order > 0 else jobs[::-1])]
        return NO

    seen = ()
    must = ('to_csv', 'Parallel', 'process_buildings_chunk', 'process_and_save_chunk')

    def job(self, qual, args):
        ip = self.ctx.interp(qual, opaque=(*OPAQUE, 'process_buildings_chunk'), key='p22j')
        names = [x.arg for x in self.ctx.repo.funcs[qual].node.args.args]
        self.params.append({**dict(zip(names, args[0])), **args[1]})
        try:
            t = FTrace(ip, self).run()
        finally:
            self.params.pop()
        if t.raised:
            raise Raised(t.raised.name, t.raised.name)
        return None if t.result is None else NO if t.result.op == 'const' else NO


def inventory(ctx, res, skipped):
    ip = ctx.interp(MOD + 'regional_sim', opaque=(*OPAQUE, 'process_and_save_chunk', 'process_buildings_chunk', 'format_elapsed_time', 'tqdm_joblib'), key='p22i')
    w = MOD + 'regional_sim'
    many = [(i * 617) % 2203 + 1 for i in range(2203)]
    large = list(range(1, 11009))
    small = [9, 4, 2, 30, 11, 5, 7]
    cases = [
        ('11008 buildings', large, None, True, -1), ('2203 buildings', many, None, True, 1), ('2203 buildings, files in another order', many, None, True, -1), ('7 buildings', small, None, True, 1),
        ('no repair times', small, None, False, 1), ('filter', small, '4-5, 30,9', True, 1), ('filter of a missing building', small, '4,6', True, 1),
        ('1000 buildings', many[:1000], None, True, 1), ('1001 buildings', many[:1001], None, True, 1),
    ]
    for tag, ids, filt, times, order in cases:
        fs = Files(ctx, ids, filt, times, order)
        fs.seen = []
        t = FTrace(ip, fs)
        try:
            t.run()
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{tag}: {exc}')
            continue
        if 'missing' in tag:
            chk(res, 'filter', t.raised is not None and t.raised.name == 'ValueError', w, 'a filter with a building that is not in the inventory is accepted', tag)
            continue
        if t.raised:
            e = t.raised.event
            if t.raised.name in ('ValueError', 'KeyError', 'IndexError', 'FileNotFoundError') and e is not None:
                chk(res, 'chunks', False, e.where(), f'{t.raised.name} for {tag}', tag)
            else:
                skipped.append(f'{tag}: {t.raised.name}')
            continue
        judge(fs, res, skipped, w, tag, ids if filt is None else [b for b in ids if b in (4, 5, 30, 9)], filt)


def judge(fs, res, skipped, w, tag, ids, filt):
    done = [b for c in fs.chunks for b in c.index.vals]
    rule = 'filter' if filt is not None else 'chunks'
    chk(res, rule, sorted(done) == sorted(ids), w, f'{len(done)} buildings are evaluated instead of {len(ids)} ({tag})' if len(done) != len(ids) else f'the evaluated buildings are not those requested ({tag})', f'{tag}: evaluated')
    inv = fs.files['/in/b.csv']
    rows = dict(zip(inv.index.vals, inv.rows))
    ok = all(r == rows.get(b) for c in fs.chunks for b, r in zip(c.index.vals, c.rows)) and all(c.columns.vals == inv.columns.vals for c in fs.chunks)
    chk(res, 'chunks', ok, w, f'a building is evaluated with the attributes of another one ({tag})', f'{tag}: attributes')
    bad = None
    for p in fs.seen:
        gp, gd = p.get('grid_points'), p.get('grid_data')
        if not isinstance(gp, Frame) or not isinstance(gd, Frame):
            bad = 'undecided'
            break
        pts = [x[1] for x in seq(gp.get('Longitude'))]
        srcs = list(dict.fromkeys(sorted(gd.columns.lvals(0))))
        if len(srcs) != len(pts):
            bad = 'the number of grid points'
            break
        for (s, im), j in zip(gd.columns.vals, range(len(gd.columns))):
            for r, row in enumerate(gd.rows):
                if row[j] != ('im', pts[srcs.index(s)], im, gd.index.vals[r]):
                    bad = f'the values of {row[j]} are given to {pts[srcs.index(s)]}'
        if sorted(set(gd.columns.lvals(1))) != ['PGA', 'SA_1.0'] or len(gd.rows) != 3:
            bad = bad or 'the intensity measures or realizations'
        if (p.get('n_neighbors'), p.get('sample_size_demand'), p.get('sample_size_damage'), p.get('dl_method'), p.get('im_types')) != (4, 3, 2, 'M', {'SA_1.0': 'g', 'PGA': 'g'}):
            bad = bad or 'the settings'
    if bad == 'undecided':
        skipped.append(f'{tag}: grid')
    else:
        chk(res, 'demand', bad is None, w, f'the intensity measures at the grid points are not those of their files: {bad}', f'{tag}: grid')
    names = {'damage.csv': 'damage', 'repair_costs.csv': 'costs', 'repair_times.csv': 'times'}
    out = {p.rsplit('/', 1)[-1]: t for p, t in fs.out.items()}
    for name, what in names.items():
        t = out.get(name)
        if what == 'times' and not fs.times:
            chk(res, 'chunks', t is None, w, f'{name} is written without results ({tag})', f'{tag}: {name}')
            continue
        if t is None:
            chk(res, 'chunks', False, w, f'{name} is not written ({tag})', f'{tag}: {name}')
            continue
        bad = None
        if sorted(map(repr, t.index.vals)) != sorted(map(repr, ids)):
            bad = 'the rows are not the buildings'
        elif filt is None and t.index.vals != ids:
            bad = 'the buildings are not in the order of the inventory'
        else:
            for b, row in zip(t.index.vals, t.rows):
                if row != [Sym(what, (b, r)) for r in range(2)]:
                    bad = f'the row of building {b} is {row}'
                    break
        chk(res, 'chunks', bad is None, w, f'{name}: {bad} ({tag})', f'{tag}: {name}')
    t = out.get('demand.csv')
    if t is None:
        chk(res, 'chunks', False, w, f'demand.csv is not written ({tag})', f'{tag}: demand.csv')
        return
    want = [f'{im}-{b}-1' for b in ids for im in ('PGA', 'SA_1.0')]
    bad = None
    if sorted(t.columns.vals) != sorted(want):
        bad = 'the columns are not the intensity measures of the buildings'
    elif filt is None and list(dict.fromkeys(c.split('-')[1] for c in t.columns.vals)) != [str(b) for b in ids]:
        bad = 'the buildings are not in the order of the inventory'
    else:
        for j, c in enumerate(t.columns.vals):
            if [r[j] for r in t.rows] != [Sym('d', (k, c)) for k in (0, 1, 2, 'Units')]:
                bad = f'the column {c} holds {[r[j] for r in t.rows][:1]}'
                break
    chk(res, 'chunks', bad is None, w, f'demand.csv: {bad} ({tag})', f'{tag}: demand.csv')


__all__ = ['NAN', 'run']
