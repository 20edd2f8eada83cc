"""P38: components are placed where the asset model puts them, with the quantities that it gives."""

from __future__ import annotations

from .. import vq
from ..asworld import Log, own
from ..ceval import NO, Raised, Undecided
from ..lframe import NAN, Arr, FTrace, Frame, Ix, Obj, Ser, isnan, seq
from ..trace import Stopped

EXPLANATION = (
    'The parsing of locations and directions is followed for every form of description, and the asset model is followed from the rows of its '
    'table to the random variables and the sample, on a table with all forms of descriptions, several families, limits, blocks and repeated rows. Saving and loading of samples are followed with components that share units.'
)
PEL = 'pelicun.model.pelicun_model.PelicunModel.'
AST = 'pelicun.model.asset_model.AssetModel.'
RULES = {
    'location': 'locations are the stories that are described',
    'direction': 'directions are those that are described',
    'group': 'every row is a performance group in each of its locations and directions, with its parameters, and no group is lost',
    'variable': 'every performance group has a random variable with its family, parameters and limits',
    'sample': 'the sample has the quantities of each random variable for its performance group',
    'loaded': 'a sample that is loaded is kept with its units, names and groups',
    'saved': 'a sample is saved and returned with the units of its components',
    'rejected': 'descriptions that cannot be understood and missing sample sizes are rejected',
}


def run(ctx, res):
    for k, v in RULES.items():
        res.rule(k, v, 0)
    skipped = []
    for f in (locations, directions, groups, variables, sampled, loaded, saved):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


class Any(Obj):
    """Something that other parts provide: attributes are given, messages are not recorded."""

    def __init__(self, **kw):
        self.stored = {}
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, name):
        if name in ('a_log',):
            return Any()
        if name in ('m_msg', 'm_warning', 'm_add', 'm_div', 'm_add_warning'):
            return lambda *_a, **_kw: None
        if name.startswith('s_'):
            return lambda v: self.store(name[2:], v)
        raise AttributeError(name)

    def store(self, name, v):
        self.stored[name] = v
        setattr(self, 'a_' + name, v)


class World:
    """Parameters of a function, and stand-ins for the functions of other parts."""

    def __init__(self, params, stand=None):
        self.params, self.stand, self.messages = params, stand or {}, []
        self.must = tuple(self.stand)

    def __call__(self, tr, n):
        if n.op == 'param' and n.args[-1] in self.params:
            return self.params[n.args[-1]]
        if n.op == 'call' and vq.bname(n) in self.stand:
            a, kw = tr.args(n)
            kw.pop('log', None)
            return self.stand[vq.bname(n)](*a, **kw)
        if n.op == 'call':
            c = vq.callee(n)
            full = str(c[1]) if c else ''
            if full in ('pandas.isna', 'pandas.isnull') and len(n.args[1]) == 1:
                v = tr.ev(n.args[1][0])
                if not isinstance(v, Obj):
                    return v is None or isnan(v)
        return NO


# -- descriptions -------------------------------------------------------------------
STORIES = 4
PLACES = {
    '0': ['0'], '3': ['3'], '3.0': ['3'], '12': ['12'], '2--4': ['2', '3', '4'], '1--1': ['1'], '9--11': ['9', '10', '11'], '1,2,5': ['1', '2', '5'], '7,3': ['7', '3'], 'all': ['1', '2', '3', '4'],
    'top': ['4'], 'roof': ['5'], '2--top': ['2', '3', '4'], '3--roof': ['3', '4', '5'], 'top--roof': ['4', '5'], '0--2': ['0', '1', '2'],
}
SIDES = {'1': ['1'], '2.0': ['2'], '0': ['0'], '1--3': ['1', '2', '3'], '2,1': ['2', '1'], '1,2,5': ['1', '2', '5'], None: ['1'], '9--10': ['9', '10']}


def entry(ip, b, k, st, _pos):
    """The entry of a table of constants is the one of the key."""
    return ip.N('index', b, k) if b.op == 'dict' and b.args and ip.closed_keys(b, st) and ip.ckey(k) is None else None


def follow(ctx, qual, params, stand=None, opaque=()):
    w = World(params, stand)
    tr = FTrace(ctx.interp(qual, opaque=('Logger', 'pelicun.file_io', 'pelicun.uq', '_convert_marginal_params', *opaque), key='p38', hooks={'index': entry}), w).run()
    return tr, w


def place(ctx, stories=STORIES):
    """A model of a building that understands descriptions as the code does."""
    me = Any(a__asmnt=Any(a_stories=stories))

    def reads(qual, param):
        def f(text):
            tr, _w = follow(ctx, qual, {param: text, 'self': me})
            if tr.raised:
                raise Raised(tr.raised.name, tr.raised.name)
            return tr.ev(tr.result)
        return f

    me.m__get_locations = reads(PEL + '_get_locations', 'loc_str')
    me.m__get_directions = reads(PEL + '_get_directions', 'dir_str')
    return me


def parsed(ctx, res, skipped, rule, qual, param, cases, bad):
    for text, want in cases.items():
        try:
            tr, _w = follow(ctx, qual, {param: text, 'self': place(ctx)})
            if tr.raised:
                res.check(rule, False, f'{text}', qual, f'{text!r} is rejected ({tr.raised.name})')
                continue
            got = [str(x) for x in seq(tr.ev(tr.result))]
        except (Undecided, Stopped) as exc:
            skipped.append(f'{rule} {text}: {exc}')
            continue
        except Raised as exc:
            res.check(rule, False, f'{text}', qual, f'{text!r} is rejected ({exc.name})')
            continue
        res.check(rule, got == want, f'{text}', qual, f'{text!r} of a building with {STORIES} stories is {got}, not {want}')
    for text in bad:
        try:
            tr, _w = follow(ctx, qual, {param: text, 'self': place(ctx)})
            name = tr.raised.name if tr.raised else None
            if name is None:
                try:
                    tr.ev(tr.result)
                except Raised as exc:
                    name = exc.name
        except (Undecided, Stopped) as exc:
            skipped.append(f'{rule} {text}: {exc}')
            continue
        except Raised as exc:
            name = exc.name
        res.check('rejected', name == 'ValueError', f'{rule} {text}', qual, f'the {rule} {text!r} is not rejected')


def locations(ctx, res, skipped):
    parsed(ctx, res, skipped, 'location', PEL + '_get_locations', 'loc_str', PLACES, ('attic', 'allx', '1-3', 'ro--of'))


def directions(ctx, res, skipped):
    parsed(ctx, res, skipped, 'direction', PEL + '_get_directions', 'dir_str', SIDES, ('north', '1-2', 'all'))


# -- performance groups -----------------------------------------------------------
HEAD = ['Location', 'Direction', 'Family', 'Theta_0', 'Theta_1', 'Theta_2', 'TruncateLower', 'TruncateUpper', 'Blocks']
ROWS = [
    ('D.2', ['1--2', '1,2', 'normal', 10.0, 0.5, NAN, 2.0, 30.0, 3.0], 'ft2'),
    ('B.1', ['all', '0', NAN, 4.0, NAN, NAN, NAN, NAN, NAN], 'ea'),
    ('B.1', ['2', '0', 'lognormal', 6.0, 0.25, NAN, NAN, 9.0, 2.0], 'ea'),
    ('C.3', ['roof', '2', 'uniform', 1.0, 7.0, NAN, NAN, NAN, 1.0], 'm'),
    ('B.1', ['2', '0', NAN, 8.0, NAN, NAN, NAN, NAN, NAN], 'ea'),
    ('E.5', ['2', NAN, NAN, 9.0, NAN, NAN, NAN, NAN, NAN], 'm'),
    ('A.9', ['top', '1--2', NAN, 0.5, NAN, NAN, NAN, NAN, NAN], 'm'),
]
PLACE = {'1--2': ['1', '2'], 'all': ['1', '2', '3', '4'], '2': ['2'], 'roof': ['5'], 'top': ['4']}
SIDE = {'1,2': ['1', '2'], '0': ['0'], '2': ['2'], '1--2': ['1', '2']}


def table(head, rows):
    return Frame(Ix([r[0] for r in rows]), Ix(head), [[v for v, h in zip(r[1], HEAD) if h in head] for r in rows])


def wanted(head, rows):
    out = []
    for cmp, row, unit in rows:
        d = {h: v for h, v in zip(HEAD, row) if h in head}
        for loc in PLACE[d['Location']]:
            for di in ['1'] if isnan(d['Direction']) else SIDE[d['Direction']]:
                p = {h: v for h, v in d.items() if h not in ('Location', 'Direction', 'Blocks') and not isnan(v)}
                b = d.get('Blocks', NAN)
                out.append(((cmp, loc, di), {**p, 'Blocks': 1 if isnan(b) else int(b), 'Units': unit}))
    return out


def groups(ctx, res, skipped):
    at = AST + 'load_cmp_model'
    for what, head, rows in (('a complete table', HEAD, ROWS), ('a table without blocks', [h for h in HEAD if h != 'Blocks'], ROWS), ('a table without families', ['Location', 'Direction', 'Theta_0', 'Blocks'], [r for r in ROWS if isnan(r[1][2])])):
        asked = []

        def load(src, factors=None, *_a, orientation=0, reindex=True, return_units=False, **_kw):
            if factors is not None or not return_units:
                raise Undecided('load_data')
            res.check('group', orientation == 1 and not reindex, f'{what}: rows', at, f'{what} is read with the orientation {orientation}' + ' and loses its names' * bool(reindex))
            t = own(src)
            return t, Ser(t.index, [r[2] for r in rows], 'Units')

        def convert(t, units, *_a, **_kw):
            asked.append((own(t), own(units)))
            return t

        me = place(ctx)
        me.m__convert_marginal_params = convert
        src = table(head, rows)
        try:
            tr, _w = follow(ctx, at, {'self': me, 'data_source': {'marginals': src}}, {'load_data': load, '_convert_marginal_params': convert}, ('_get_locations', '_get_directions'))
        except (Undecided, Stopped) as exc:
            skipped.append(f'group, {what}: {exc}')
            continue
        if tr.raised:
            res.check('group', False, what, at, f'{what} is rejected ({tr.raised.name})')
            continue
        got = me.stored.get('cmp_marginal_params')
        if not isinstance(got, Frame):
            raise Undecided('performance groups')
        units = dict(zip(asked[-1][1].index.vals, asked[-1][1].vals)) if asked else {}
        have = []
        for i, r in zip(got.index.vals, got.rows):
            d = {c: v for c, v in zip(got.columns.vals, r) if not isnan(v) and c != 'Units'}
            have.append((i[:3], {**d, 'Units': units.get(i)}))
        want = wanted(head, rows)
        res.check('group', len(set(got.index.vals)) == len(got.index.vals), f'{what}: names', at, f'{what}: performance groups {[i for i in got.index.vals if got.index.vals.count(i) > 1][:2]} have the same name')
        left = list(have)
        for k, d in want:
            near = [x for x in left if x[0] == k]
            ok = (k, d) in left
            res.check('group', ok, f'{what}: {k}', at, f'{what}: the group of {k} is {[x[1] for x in near][:2] or "missing"}, not {d}')
            if ok:
                left.remove((k, d))
        extra = [x for x in left if x[0] not in {k for k, _d in want}]
        res.check('group', not extra and len(have) == len(want), f'{what}: number', at, f'{what}: there are {len(have)} groups instead of {len(want)} {extra[:1]}')
        u = me.stored.get('cmp_units')
        ok = isinstance(u, Ser) and dict(zip(u.index.vals, u.vals)) == {r[0]: r[2] for r in rows}
        res.check('group', ok, f'{what}: units', at, f'{what}: the units of the components are {dict(zip(u.index.vals, u.vals)) if isinstance(u, Ser) else u}')


# -- variables ------------------------------------------------------------------------
PARAMS = {
    ('B.1', '2', '0', '0'): {'Theta_0': 4.0}, ('B.1', '2', '0', '1'): {'Family': 'lognormal', 'Theta_0': 6.0, 'Theta_1': 0.25, 'TruncateUpper': 9.0},
    ('D.2', '1', '2', '0'): {'Family': 'normal', 'Theta_0': 10.0, 'Theta_1': 0.5, 'TruncateLower': 2.0, 'TruncateUpper': 30.0},
    ('B.1', '3', '0', '0'): {'Theta_0': 0.0}, ('D.2', '3', '2', '0'): {'Family': 'multinomial', 'Theta_0': 0.25, 'Theta_1': 0.5, 'Theta_2': 0.25},
    ('C.3', '5', '2', '0'): {'Family': 'uniform', 'Theta_0': 1.0, 'Theta_1': 7.0, 'TruncateLower': 1.5},
}


def variables(ctx, res, skipped):
    at = AST + '_create_cmp_RVs'
    for what, cols in (
        ('all parameters', ['Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper']), ('three parameters', ['Family', 'Theta_0', 'Theta_1', 'Theta_2', 'TruncateLower', 'TruncateUpper']),
        ('no limits', ['Family', 'Theta_0', 'Theta_1']), ('an upper limit', ['Family', 'Theta_0', 'Theta_1', 'TruncateUpper']), ('no families', ['Theta_0']),
    ):
        rows = {k: v for k, v in PARAMS.items() if ('Family' in cols or 'Family' not in v) and ('Theta_2' in cols or 'Theta_2' not in v)}
        t = Frame(Ix(list(rows), ['cmp', 'loc', 'dir', 'uid']), Ix(cols), [[v.get(c, NAN) for c in cols] for v in rows.values()])
        got, kinds = [], []

        def family(f, *_a):
            def make(name=None, theta=None, truncation_limits=None, **kw):
                if kw:
                    raise Undecided('random variable')
                return ('rv', f, name, theta, truncation_limits)
            return make

        me = Any(a__asmnt=Any(a_options=Any(a_rng='rng', a__rng='rng')), a_cmp_marginal_params=t)
        registry = Any(m_add_RV=got.append)

        class Variables(World):
            def __call__(self, tr, n):
                if n.op == 'call' and n.args[0].op == 'call' and vq.bname(n.args[0]) == 'rv_class_map':
                    (f,), _kw = tr.args(n.args[0])
                    a, kw = tr.args(n)
                    return family(f)(*a, **kw)
                if n.op == 'new' and str(n.args[0]).endswith('RandomVariableRegistry'):
                    return registry
                return super().__call__(tr, n)

        def new(*a):
            kinds.append(a)
            return registry

        w = Variables({'self': me}, {'RandomVariableRegistry': new})
        w.must = ('add_RV',)
        try:
            tr = FTrace(ctx.interp(at, opaque=('Logger', 'pelicun.uq'), key='p38'), w).run()
        except (Undecided, Stopped) as exc:
            skipped.append(f'variable, {what}: {exc}')
            continue
        if tr.raised:
            res.check('variable', False, what, at, f'{what}: {tr.raised.name} is raised')
            continue
        if any(not (isinstance(g, tuple) and g[0] == 'rv') for g in got):
            raise Undecided('random variables')
        have = {g[2]: g for g in got}
        want = {'CMP-' + '-'.join(k): v for k, v in rows.items()}
        res.check('variable', len(got) == len(want) and set(have) == set(want), f'{what}: names', at, f'{what}: the random variables are {sorted(have)}, not {sorted(want)}')
        for name, v in want.items():
            if name not in have:
                continue
            _x, f, _n, theta, limits = have[name]
            f = 'deterministic' if f is None or isnan(f) else f
            n = sum(x.startswith('Theta') for x in v)
            th = [x for x in seq(theta)] if theta is not None else []
            lim = [NAN, NAN] if limits is None else list(seq(limits))
            ok = f == v.get('Family', 'deterministic') and th[:n] == [v[f'Theta_{i}'] for i in range(n)] and all(isnan(x) for x in th[n:])
            res.check('variable', ok, f'{what}: {name}', at, f'{what}: {name} is {f} {th}, not {v}')
            wl = [v.get('TruncateLower', NAN) if 'TruncateLower' in cols else NAN, v.get('TruncateUpper', NAN) if 'TruncateUpper' in cols else NAN]
            ok = len(lim) == 2 and all(a == b or isnan(a) and isnan(b) for a, b in zip(lim, wl))
            res.check('variable', ok, f'{what}: limits of {name}', at, f'{what}: the limits of {name} are {lim}, not {wl}')


# -- sample -----------------------------------------------------------------------------
def sampled(ctx, res, skipped):
    at = AST + 'generate_cmp_sample'
    names = ['CMP-D.2-1-2-0', 'CMP-B.1-2-0-1', 'CMP-B.1-10-0-0', 'CMP-B.1-2-0-0']
    for what, size, demand, want in (('a given size', 3, True, 3), ('the size of the demands', None, True, 2), ('a given size without demands', 3, False, 3), ('no size', None, False, None), ('no model', 3, True, None)):
        asked = []

        def generate(*a, **kw):
            asked.append({**dict(zip(('sample_size', 'method'), a)), **kw})

        def realized(n):
            return {x: Arr((n,), [100.0 * i + j for j in range(n)]) for i, x in enumerate(names)}

        reg = Any(m_generate_sample=generate, a_RV_sample=realized(want or 2))
        t = Frame(Ix([tuple(x.split('-')[1:]) for x in names], ['cmp', 'loc', 'dir', 'uid']), Ix(['Theta_0']), [[1.0]] * len(names))
        dem = Frame(Ix([0, 1]), Ix([('PID', '1', '1')]), [[1.0], [2.0]]) if demand else None
        me = Any(a__asmnt=Any(a_demand=Any(a_sample=dem), a_options=Any(a_sampling_method='LHS')), a_cmp_marginal_params=None if what == 'no model' else t, a__cmp_RVs=reg, m__create_cmp_RVs=lambda: None)
        try:
            tr, _w = follow(ctx, at, {'self': me, 'sample_size': size}, opaque=('_create_cmp_RVs',))
        except (Undecided, Stopped) as exc:
            skipped.append(f'sample, {what}: {exc}')
            continue
        if want is None:
            res.check('rejected', tr.raised is not None and tr.raised.name == 'ValueError', f'sample with {what}', at, f'a sample is generated with {what}')
            continue
        if tr.raised:
            res.check('sample', False, what, at, f'{what}: {tr.raised.name} is raised')
            continue
        res.check('sample', asked == [{'sample_size': want, 'method': 'LHS'}], f'{what}: size', at, f'{what}: the sample is generated with {asked}')
        got = me.stored.get('cmp_sample')
        if not isinstance(got, Frame):
            raise Undecided('sample')
        res.check('sample', got.columns.names == ['cmp', 'loc', 'dir', 'uid'], f'{what}: levels', at, f'{what}: the levels of the sample are {got.columns.names}')
        have = {c: [r[j] for r in got.rows] for j, c in enumerate(got.columns.vals)}
        exp = {tuple(x.split('-')[1:]): v.flat for x, v in realized(want).items()}
        bad = [k for k in exp if have.get(k) != exp[k]] + [k for k in have if k not in exp]
        res.check('sample', not bad and len(got.columns) == len(exp), f'{what}: quantities', at, ''.join(f'{what}: the sample of {k} is {have.get(k)}, not {exp.get(k)}' for k in bad[:1]) or f'{what}: columns {got.columns.vals}')


# -- samples of the user -----------------------------------------------------------------
def loaded(ctx, res, skipped):
    at = AST + 'load_cmp_sample'
    plain_ = [('B.1', '2', '0'), ('A.7', '1', '1'), ('B.1', '1', '0'), ('A.7', '1', '1'), ('B.1', '2', '0'), ('B.1', '2', '0'), ('D.2', '2', '0')]
    number = {0: '0', 1: '0', 2: '0', 3: '1', 4: '1', 5: '2', 6: '0'}
    unit = {'B.1': 'ea', 'A.7': 'ft2', 'D.2': 'ea'}
    for what, cols in (('groups without numbers', plain_), ('groups with numbers', [(*c, '4' if i == 1 else number[i]) for i, c in enumerate(plain_)]), ('too few levels', [c[:2] for c in plain_]), ('too many levels', [(*c, '0', '0') for c in plain_])):
        rows = [[10.0 * i + j for j in range(len(cols))] for i in range(2)]
        given = []

        def load(src, factors=None, *_a, orientation=0, reindex=True, return_units=False, **_kw):
            given.append((src, factors, orientation, reindex))
            if not return_units:
                raise Undecided('load_data')
            return Frame(Ix([0, 1]), Ix(cols), rows), Ser(Ix(cols), [unit[c[0]] for c in cols], 'Units')

        me = Any(a__asmnt=Any(a_unit_conversion_factors='factors'))
        try:
            tr, _w = follow(ctx, at, {'self': me, 'filepath': 'path'}, {'load_data': load})
        except (Undecided, Stopped) as exc:
            skipped.append(f'loaded, {what}: {exc}')
            continue
        if what.startswith('too'):
            res.check('rejected', tr.raised is not None and tr.raised.name == 'ValueError', f'a sample with {what}', at, f'a sample with {what} is not rejected')
            continue
        if tr.raised:
            res.check('loaded', False, what, at, f'{what}: {tr.raised.name} is raised')
            continue
        res.check('loaded', given == [('path', 'factors', 0, True)], f'{what}: file', at, f'{what}: the sample is read with {given}')
        want = [c if len(c) == 4 else (*c, number[i]) for i, c in enumerate(cols)]
        got = me.stored.get('cmp_sample')
        if not isinstance(got, Frame):
            raise Undecided('sample')
        have = {tuple(str(x) for x in c): [r[j] for r in got.rows] for j, c in enumerate(got.columns.vals)}
        exp = {c: [r[j] for r in rows] for j, c in enumerate(want)}
        res.check('loaded', have == exp and len(got.columns) == len(want) and got.columns.names == ['cmp', 'loc', 'dir', 'uid'], f'{what}: sample', at, f'{what}: the sample is {have} with the levels {got.columns.names}, not {exp}')
        u = me.stored.get('cmp_units')
        res.check('loaded', isinstance(u, Ser) and dict(zip(u.index.vals, u.vals)) == unit, f'{what}: units', at, f'{what}: the units are {u.vals if isinstance(u, Ser) else u}')
        p = me.stored.get('cmp_marginal_params')
        ok = isinstance(p, Frame) and [tuple(map(str, i)) for i in p.index.vals] == [tuple(map(str, c)) for c in got.columns.vals] and 'Blocks' in p.columns.vals and all(b == 1 for b in p.get('Blocks').vals)
        res.check('loaded', ok, f'{what}: groups', at, f'{what}: the performance groups are {list(zip(p.index.vals, p.rows)) if isinstance(p, Frame) else p}')


QUANTITIES = {('B.1', '2', '0', '0'): [1.0, 2.0], ('A.7', '1', '1', '0'): [3.0, 4.0], ('B.1', '1', '2', '1'): [5.0, 6.0], ('A.7', '1', '1', '1'): [7.0, 8.0], ('D.2', '0', '1', '0'): [9.0, 0.5]}
OWN_UNITS = {'B.1': 'ea', 'A.7': 'ft2', 'D.2': 'ea'}


def saved(ctx, res, skipped):
    from .p42 import saved as follow_saved

    def owner(_present):
        keys = list(QUANTITIES)
        t = Frame(Ix([0, 1]), Ix(keys, ['cmp', 'loc', 'dir', 'uid']), [[QUANTITIES[k][i] for k in keys] for i in range(2)])
        return Any(a_cmp_sample=t, a_cmp_units=Ser(Ix(list(OWN_UNITS)), list(OWN_UNITS.values()), 'Units'), a__asmnt=Any(a_unit_conversion_factors='factors', a_log='log'))
    follow_saved(ctx, res, skipped, AST + 'save_cmp_sample', owner, AST[:-1], QUANTITIES, OWN_UNITS, without=False)


__all__ = ['Log', 'run']
