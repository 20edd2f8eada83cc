"""The surroundings of a damage and loss calculation: its folder, its configuration, and the results of its assessment."""

from __future__ import annotations

import copy
import fnmatch
from pathlib import PurePosixPath

from . import vq
from .ceval import NO, Raised, Undecided
from .lframe import NAN, Const, Frame, FTrace, Ix, Obj, Ser, Sym, Txt, isnan

MOD = 'pelicun.tools.DL_calculation.'
OPAQUE = (
    'pelicun.assessment', 'pelicun.model.damage_model', 'pelicun.model.demand_model', 'pelicun.model.asset_model', 'pelicun.model.loss_model', 'pelicun.model.pelicun_model', 'pelicun.base', 'pelicun.file_io', 'pelicun.auto', 'pelicun.uq', MOD + '_parse_config_file', MOD + 'convert_df_to_dict', MOD + 'log_msg',
)
STATS = ['count', 'mean', 'std', 'log_std', 'min', '50%', 'max']


# -- paths in a configuration -----------------------------------------------------
def get(d, path, default=None):
    if d is None:
        return default
    for k in path.strip('/').split('/'):
        if not isinstance(d, dict) or k not in d:
            return default
        d = d[k]
    return d


def unspecified(d, path):
    v = get(d, path)
    return v is None or isnan(v) or v == {} or v == []


def update(d, path, value, only_if_empty_or_none=False):
    ks = path.strip('/').split('/')
    if only_if_empty_or_none and not unspecified(d, path):
        return
    for k in ks[:-1]:
        if not isinstance(d.get(k), dict):
            d[k] = {}
        d = d[k]
    d[ks[-1]] = value


# -- indices -----------------------------------------------------------------------
def simple(t, axis=0, inplace=False):
    if inplace or axis not in (0, 1):
        raise Undecided('index conversion')
    t = t.m_copy()
    ix = t.columns if axis == 1 else t.index
    if ix.multi:
        new = Ix(['-'.join(str(x) for x in v) for v in ix.vals], ['-'.join(n if n is not None else '' for n in ix.names)])
        if axis == 1:
            t.columns = new
        else:
            t.index = new
    return t


def multi(t, axis=0, inplace=False):
    if inplace or axis not in (0, 1):
        raise Undecided('index conversion')
    ix = t.columns if axis == 1 else t.index
    if ix.multi:
        return t
    parts = [str(x).split('-') for x in ix.vals]
    n = max((len(p) for p in parts), default=1)
    if n == 1:
        return t
    t = t.m_copy()
    new = Ix([(*p, *[''] * (n - len(p))) for p in parts], [None] * n)
    if axis == 1:
        t.columns = new
    else:
        t.index = new
    return t


def describe(t, *_a, **_kw):
    if _a or _kw:
        raise Undecided('describe')
    t = t.m_to_frame() if isinstance(t, Ser) else t
    cols = [[r[j] for r in t.rows] for j in range(len(t.columns))]
    return Frame(Ix(STATS), t.columns, [[stat(s, c) for c in cols] for s in STATS])


def stat(s, col):
    if any(isinstance(v, str) for v in col):
        raise Undecided('statistics of text')
    return Sym('stat', (s, tuple('nan' if isnan(v) else float(v) if isinstance(v, (int, float)) else v for v in col)))


# -- results -----------------------------------------------------------------------
class Model(Obj):
    def __init__(self, world, name):
        self.world, self.name = world, name

    def saved(self, a, save_units, kw):
        if a or kw:
            raise Undecided('save_sample')
        if self.name == 'damage' and 'damage' not in self.world.done:
            return None
        if self.name not in self.world.done:
            raise Raised('AssertionError', 'AssertionError')
        t, u = self.world.results[self.name]
        return (t.m_copy(), u.m_copy()) if save_units else t.m_copy()

    def m_save_sample(self, *a, save_units=False, **kw):
        return self.saved(a, save_units, kw)


class Asset(Model):
    m_save_sample = None

    def m_save_cmp_sample(self, *a, save_units=False, **kw):
        return self.saved(a, save_units, kw)


class Asm(Obj):
    def __init__(self, world):
        self.world = world
        self.a_demand, self.a_asset, self.a_damage, self.a_loss = Model(world, 'demand'), Asset(world, 'asset'), Model(world, 'damage'), Model(world, 'loss')

    def step(self, name, a, kw):
        w = self.world
        w.log.append(('calculate', name))
        w.snapshots[name] = dict(w.files)
        w.calls[name] = (a, kw)
        if w.fail == name:
            raise Raised('ValueError', 'ValueError')
        w.done.add(name)

    def m_calculate_demand(self, *a, **kw):
        self.step('demand', a, kw)

    def m_calculate_asset(self, *a, **kw):
        self.step('asset', a, kw)

    def m_calculate_damage(self, *a, **kw):
        self.step('damage', a, kw)

    def m_calculate_loss(self, *a, **kw):
        self.step('loss', a, kw)
        return self.world.aggregate.m_copy(), Frame(self.world.aggregate.index, Ix([]), [[] for _ in self.world.aggregate.rows])


class Text(Obj):
    """`.str` of an index."""

    def __init__(self, vals):
        self.vals = vals

    def m_isnumeric(self):
        return arr_of([x.isnumeric() for x in self.vals])

    def m_lower(self):
        return Ix([x.lower() for x in self.vals])


def arr_of(v):
    from .lframe import arr

    return arr(v)


class File(Obj):
    """A path of the folder."""


class World:
    """The folder of the calculation and everything the calculation calls."""

    must = ('unlink', 'remove', 'to_csv', 'read_csv', 'dump', 'rmtree', 'calculate_demand', 'calculate_asset', 'calculate_damage', 'calculate_loss', 'save_sample', 'save_cmp_sample', 'convert_df_to_dict',
            'rename', 'replace', 'concat', 'append')
    functions = {}

    def __init__(self, ctx, config, files=(), results=None, aggregate=None, fail=None, locked=(), params=None, at='/out'):
        self.ctx, self.config, self.fail, self.locked = ctx, config, fail, set(locked)
        self.files = {f'{at}/{f}': 'earlier' for f in files}
        self.results, self.aggregate = results, aggregate
        self.log, self.calls, self.done, self.snapshots = [], {}, set(), {}
        self.asm, self.options, self.overwritten = Asm(self), [], []
        self.dirs = {'/out', '/in', '/'}
        self.params = params or {}
        self.handles = {}

    def names(self, d='/out'):
        return {p[len(d) + 1:] for p in self.files if p.startswith(d + '/')}

    def write(self, path, what):
        path = str(path)
        if str(PurePosixPath(path).parent) not in self.dirs:
            raise Raised('OSError', 'OSError')
        self.log.append(('write', path))
        self.files[path] = what

    def delete(self, path, missing_ok=False):
        path = str(path)
        if path in self.locked:
            raise Raised('PermissionError', 'PermissionError')
        if path not in self.files:
            if missing_ok:
                return
            raise Raised('FileNotFoundError', 'FileNotFoundError')
        self.log.append(('remove', path))
        del self.files[path]

    def read(self, path, index_col=None, **kw):
        t = self.files.get(str(path))
        if t is None:
            raise Raised('FileNotFoundError', 'FileNotFoundError')
        if index_col != 0 or not isinstance(t, Frame) or kw:
            raise Undecided('read_csv')
        ints = all(isinstance(x, int) or str(x).isnumeric() for x in t.index.vals)
        cols = [c if not isinstance(c, tuple) else str(c) for c in t.columns.vals]
        mixed = [any(isinstance(r[j], str) for r in t.rows) for j in range(len(cols))]
        rows = [[Txt(x) if m and not isinstance(x, str) and not isnan(x) else x for m, x in zip(mixed, r)] for r in t.rows]
        return Frame(Ix([int(x) if ints else str(x) for x in t.index.vals]), Ix([str(c) for c in cols]), rows)

    def tree(self, t):
        """What `convert_df_to_dict` returns."""
        ip = self.ctx.interp(MOD + 'convert_df_to_dict', opaque=OPAQUE, key='dltree')
        w = self

        class Inner:
            must = ('convert_df_to_dict', 'update')
            functions = {}

            def __call__(self, tr, n):
                if n.op == 'param':
                    return t if n.args[-1] == 'data' else 1 if n.args[-1] == 'axis' else NO
                return w.common(tr, n)

        tr = FTrace(ip, Inner()).run()
        if tr.raised:
            raise Raised(tr.raised.name, tr.raised.name)
        return tr.ev(tr.result)

    def common(self, tr, n):
        if n.op == 'attr' and n.args[1] == 'str':
            try:
                o = tr.ev(n.args[0])
            except Undecided:
                return NO
            if isinstance(o, Ix):
                return Text([str(x) for x in o.vals])
        if n.op != 'call':
            return NO
        nm = vq.bname(n)
        c = vq.callee(n)
        full = str(c[1]) if c else ''
        if nm == 'isinstance' and len(n.args[1]) == 2:
            t = n.args[1][1]
            ts = [x.args[0].rsplit('.', 1)[-1] for x in (t.args if t.op == 'tuple' else (t,)) if x.op in ('ext', 'fn', 'cls', 'clsref')]
            v = tr.ev(n.args[1][0])
            if ts and all(x in ('DataFrame', 'Series', 'MultiIndex', 'Index') for x in ts):
                return any(isinstance(v, Frame) if x == 'DataFrame' else isinstance(v, Ser) if x == 'Series' else isinstance(v, Ix) and (x == 'Index' or v.multi) for x in ts)
            return NO
        if nm in ('all', 'any') and full.startswith('numpy') and len(n.args[1]) == 1 and not n.args[2]:
            v = tr.ev(n.args[1][0])
            return (all if nm == 'all' else any)(v)
        if nm == 'convert_df_to_dict' and (full.startswith(MOD) or full == 'pelicun.tools.DL_calculation.convert_df_to_dict'):
            a, kw = tr.args(n)
            t = a[0] if a else kw.get('data')
            axis = a[1] if len(a) > 1 else kw.get('axis', 1)
            if not isinstance(t, Frame):
                raise Undecided('convert_df_to_dict')
            return self.tree(t if axis == 1 else t.a_T)
        if nm == 'to_numeric' and full.startswith('pandas'):
            v = tr.ev(n.args[1][0])
            return v.m_astype(Const('float')) if isinstance(v, (Ser, Frame)) else v.v if isinstance(v, Txt) else v
        return NO

    def __call__(self, tr, n):  # noqa: C901
        if n.op == 'param':
            p = n.args[-1]
            return self.params[p] if p in self.params else NO
        if n.op == 'enter':
            return tr.ev(n.args[0])
        if n.op == 'new' and 'Assessment' in str(n.args[0]):
            return self.asm
        if n.op == 'ext' and n.args[0] == 'os.sep':
            return '/'
        if n.op == 'attr' and n.args[1] in ('parent', 'parents', 'name', 'stem', 'suffix'):
            o = tr.ev(n.args[0])
            return list(o.parents) if n.args[1] == 'parents' and isinstance(o, PurePosixPath) else getattr(o, n.args[1]) if isinstance(o, PurePosixPath) else NO
        v = self.common(tr, n)
        if v is not NO or n.op != 'call':
            return v
        nm = vq.bname(n)
        c = vq.callee(n)
        full = str(c[1]) if c else ''
        a = n.args[1]
        r = vq.recv(n)
        if nm is None:
            return NO
        if nm.endswith('Assessment') and 'ssessment' in full or nm == 'DLCalculationAssessment':
            if n not in self.options:
                self.options.append(n)
            return self.asm
        if full.startswith('pelicun.base.') or full in ('get', 'update') and r is None:
            args, kw = tr.args(n)
            f = {
                'get': get, 'is_unspecified': unspecified, 'is_specified': lambda d, path: not unspecified(d, path), 'update': update,
                'convert_to_SimpleIndex': simple, 'convert_to_MultiIndex': multi, 'describe': describe,
            }.get(nm)
            if f is None:
                return NO
            return f(*args, **kw)
        if nm == '_parse_config_file':
            return self.config
        if nm == 'log_msg' or nm == 'print':
            return None
        if nm == 'deepcopy' and full.startswith('copy'):
            return copy.deepcopy(tr.ev(a[0]))
        if nm in ('Path', 'PurePath', 'PurePosixPath') and full.startswith('pathlib'):
            return PurePosixPath(*[str(tr.ev(x)) for x in a])
        if full in ('os.remove', 'os.unlink'):
            self.delete(tr.ev(a[0]))
            return None
        if full == 'os.listdir':
            d = str(tr.ev(a[0])).rstrip('/')
            return sorted(p[len(d) + 1:] for p in self.files if p.startswith(d + '/'))
        if full in ('os.makedirs', 'os.mkdir'):
            args, kw = tr.args(n)
            return self.path(tr, n, 'mkdir', PurePosixPath(str(args[0])), ((0o777, nm == 'makedirs', kw.get('exist_ok', args[2] if len(args) > 2 else False)), {}))
        if full in ('os.path.exists', 'os.path.isfile', 'os.path.join', 'os.path.isdir'):
            args = [str(tr.ev(x)) for x in a]
            return str(PurePosixPath(*args)) if nm == 'join' else nm != 'isdir' and args[0] in self.files or nm != 'isfile' and args[0] in self.dirs
        if nm == 'read_csv' and full.startswith('pandas'):
            args, kw = tr.args(n)
            return self.read(*args, **kw)
        if nm == 'to_csv' and r is not None:
            t = tr.ev(r)
            if isinstance(t, Frame):
                args, kw = tr.args(n)
                z = kw.pop('compression', None)
                kw.pop('index_label', None)
                if len(args) != 1 or any(k not in ('encoding',) for k in kw):
                    raise Undecided('to_csv')
                if z is not None and not str(args[0]).endswith('.zip'):
                    raise Undecided('compression')
                self.write(args[0], t.m_copy())
                return None
        if full in ('json.dump', 'json.dumps'):
            args, _kw = tr.args(n)
            if nm == 'dumps':
                return ('json', args[0])
            if not isinstance(args[1], tuple) or args[1][0] != 'file':
                raise Undecided('json.dump')
            self.write(args[1][1], copy.deepcopy(args[0]))
            return None
        if full == 'builtins.open' or nm == 'open' and r is None:
            args, kw = tr.args(n)
            return self.opened(args[0], args[1] if len(args) > 1 else kw.get('mode', 'r'))
        if r is not None and r.op not in ('ext', 'fn', 'cls', 'clsref'):
            try:
                o = tr.ev(r)
            except Undecided:
                return NO
            if isinstance(o, PurePosixPath):
                return self.path(tr, n, nm, o)
            if isinstance(o, tuple) and o and o[0] == 'file' and nm == 'write':
                x = tr.ev(a[0])
                if not isinstance(x, tuple) or x[0] != 'json':
                    raise Undecided('write')
                self.write(o[1], copy.deepcopy(x[1]))
                return None
            if isinstance(o, Ix) and nm == 'unique' and len(n.args[1]) + len(n.args[2]) == 1:
                lv = tr.ev(a[0] if a else n.args[2][0][1])
                return Ix(list(dict.fromkeys(o.lvals(lv) if o.multi else o.vals)))
        return NO

    def opened(self, path, mode):
        if 'w' in mode:
            self.write(path, 'empty')
            return ('file', str(path))
        raise Undecided('open')

    def path(self, tr, n, nm, o, args=None):  # noqa: C901
        a, kw = args or tr.args(n)
        if nm in ('resolve', 'absolute', 'expanduser'):
            return o if o.is_absolute() else PurePosixPath('/cwd') / o
        if nm in ('as_posix', '__str__'):
            return str(o)
        if nm == 'exists':
            return str(o) in self.files or str(o) in self.dirs
        if nm == 'is_file':
            return str(o) in self.files
        if nm == 'is_dir':
            return str(o) in self.dirs
        if nm == 'mkdir':
            if str(o) in self.dirs and not kw.get('exist_ok', a[2] if len(a) > 2 else False):
                raise Raised('FileExistsError', 'FileExistsError')
            if str(o.parent) not in self.dirs and not kw.get('parents', a[1] if len(a) > 1 else False):
                raise Raised('FileNotFoundError', 'FileNotFoundError')
            self.dirs |= {str(o), *(str(p) for p in o.parents)}
            return None
        if nm == 'unlink':
            self.delete(o, *a, **kw)
            return None
        if nm in ('with_suffix', 'with_name', 'with_stem', 'joinpath', 'match'):
            return getattr(o, nm)(*a)
        if nm == 'open':
            return self.opened(o, a[0] if a else kw.get('mode', 'r'))
        if nm in ('iterdir', 'glob'):
            ps = sorted(p for p in self.files if p.startswith(f'{o}/'))
            pat = a[0] if a else '*'
            return [PurePosixPath(p) for p in ps if fnmatch.fnmatch(p[len(str(o)) + 1:], pat)]
        raise Undecided(f'path {nm}')


__all__ = ['MOD', 'NAN', 'OPAQUE', 'STATS', 'Const', 'World', 'describe', 'get', 'multi', 'simple', 'unspecified', 'update']


# -- a small calculation ------------------------------------------------------------
REAL = 3
ALL = {
    'Demand': ('Sample', 'Statistics'),
    'Asset': ('Sample', 'Statistics'),
    'Damage': ('Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics'),
    'Loss': ('Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics', 'AggregateSample', 'AggregateStatistics'),
}
FILES = {
    ('Demand', 'Sample'): 'DEM_sample.zip', ('Demand', 'Statistics'): 'DEM_stats.csv',
    ('Asset', 'Sample'): 'CMP_sample.zip', ('Asset', 'Statistics'): 'CMP_stats.csv',
    ('Damage', 'Sample'): 'DMG_sample.zip', ('Damage', 'Statistics'): 'DMG_stats.csv',
    ('Damage', 'GroupedSample'): 'DMG_grp.zip', ('Damage', 'GroupedStatistics'): 'DMG_grp_stats.csv',
    ('Loss', 'Sample'): 'DV_repair_sample.zip', ('Loss', 'Statistics'): 'DV_repair_stats.csv',
    ('Loss', 'GroupedSample'): 'DV_repair_grp.zip', ('Loss', 'GroupedStatistics'): 'DV_repair_grp_stats.csv',
    ('Loss', 'AggregateSample'): 'DV_repair_agg.zip', ('Loss', 'AggregateStatistics'): 'DV_repair_agg_stats.csv',
}
SUMMARY = ('DL_summary.csv', 'DL_summary_stats.csv')


def table(cols, names, col):
    return Frame(Ix(range(REAL)), Ix(cols, names), [[col(j, r) for j in range(len(cols))] for r in range(REAL)])


def samples(collapse=True):
    dem = [('PFA', '1', '1'), ('PFA', '0', '1'), ('PID', '2', '2'), ('PFA', '1', '2')]
    cmp = [('B.2', '1', '1', '0'), ('B.2', '1', '1', '1'), ('B.1', '2', '1', '0'), ('B.1', '1', '2', '0'), ('B.3', '1', '1', '0')]
    ds = {'B.2': 3, 'B.1': 2, 'B.3': 2}
    dmg = [(*c, str(k)) for c in cmp for k in range(ds[c[0]])]
    for x in ('collapse', 'irreparable'):
        if collapse is True or collapse == x:
            dmg += [(x, '0', '1', '0', '0'), (x, '0', '1', '0', '1')]
    loss = [('Cost', 'C.' + c[0], c[0], k, *c[1:]) for c in cmp for k in ('2', '1') if c[0] != 'B.3']
    loss += [('Time', 'C.B.1', 'B.1', '1', *c[1:]) for c in cmp if c[0] == 'B.1'] + [('Cost', 'replacement', 'collapse', '1', '0', '1', '0')]
    units = {'PFA': 'mps2', 'PID': 'rad', 'B.1': 'ea', 'B.2': 'm2', 'B.3': 'ft', 'Cost': 'USD', 'Time': 'day', 'collapse': 'ea', 'irreparable': 'ea'}

    def value(t, j, r):
        return (7 * t + 3) * 4 ** (r + 1) / 64 + 2**j / 16

    def dmgv(j, r):
        c = dmg[j]
        if c[0] == 'B.3' or c == ('B.2', '1', '1', '1', '1') and r == 2:
            return NAN
        if c[0] in ('collapse', 'irreparable'):
            return float((r == 1) == (c[4] == '1')) if c[0] == 'collapse' else float((r == 2) == (c[4] == '1'))
        if c[0] == 'B.1':
            return 0.0 if (r == 0) == (c[4] == '1') else value(2, j, r)
        return 0.0 if r == 0 and c[4] == '2' else value(2, j, r) / (1 if r else 2**14)

    def lossv(j, r):
        return NAN if loss[j][2] == 'collapse' or loss[j][0] == 'Time' and r == 1 or loss[j][3] == '2' and loss[j][6] == '1' and r == 0 else value(3, j, r)

    out = {
        'demand': table(dem, ['type', 'loc', 'dir'], lambda j, r: value(0, j, r)),
        'asset': table(cmp, ['cmp', 'loc', 'dir', 'uid'], lambda j, r: NAN if cmp[j][0] == 'B.3' or cmp[j][3] == '1' and r == 1 else value(1, j, r)),
        'damage': table(dmg, ['cmp', 'loc', 'dir', 'uid', 'ds'], dmgv),
        'loss': table(loss, ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'], lossv),
    }
    return {k: (t, Ser(t.columns, [units[c[0]] for c in t.columns.vals], 'Units')) for k, t in out.items()}


def aggregate():
    return Frame(Ix(range(REAL)), Ix([('repair_cost', ''), ('repair_time', 'parallel'), ('repair_time', 'sequential')], [None, None]), [[10.0 + r, 20.5 * r, 31.0 * r + 2] for r in range(REAL)])


def config(outputs, csv=True, json=False, stages=('demand', 'asset', 'damage', 'loss'), settings=None, process='P'):
    dl = {
        'Demands': {'DemandFilePath': '/in/response.csv'},
        'Asset': {'ComponentDatabase': 'DB', 'ComponentAssignmentFile': 'c.csv', 'OccupancyType': 'RES'},
        'Options': {'Sampling': {'SampleSize': REAL}, 'Seed': 1},
        'Outputs': {'Format': {'CSV': csv, 'JSON': json}, 'Settings': {'CondenseDS': False, 'SimpleIndexInJSON': False, 'AggregateColocatedComponentResults': True, **(settings or {})}},
    }
    if 'damage' in stages:
        dl['Damage'] = {'DamageProcess': process}
    if 'loss' in stages:
        dl['Losses'] = {'Repair': {'ConsequenceDatabase': 'DB', 'MapApproach': 'Automatic', 'DecisionVariables': {'Cost': True, 'Time': False, 'Carbon': True}}}
    for part, req in outputs.items():
        if part == 'Loss':
            dl['Outputs']['Loss'] = {'Repair': req}
        else:
            dl['Outputs'][part] = req
    return {'GeneralInformation': {'units': {'length': 'm'}}, 'DL': dl}


def start(ctx, cfg, files=(), fail=None, locked=(), collapse=True, out='/out', key='dlrun'):
    """The trace of a calculation with a configuration, and its surroundings."""
    w = World(ctx, copy.deepcopy(cfg), files, samples(collapse), aggregate(), fail, locked, {
        'config_path': '/in/config.json', 'demand_file': '/in/response.csv', 'output_path': out, 'realizations': REAL, 'auto_script_path': None, 'custom_model_dir': '/models', 'output_format': None,
        'detailed_results': True, 'coupled_edp': False,
    }, out or '/in')
    ip = ctx.interp(MOD + 'run_pelicun', opaque=OPAQUE, key=key)
    return FTrace(ip, w), w
