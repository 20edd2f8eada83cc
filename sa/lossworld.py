"""Small worlds of damage and consequences: what the repair models make of numbers."""

from __future__ import annotations

from . import vq
from .ceval import Raised, Undecided
from .lframe import NAN, Arr, FTrace, Frame, Ix, Ser, interp, isnan, seq
from .rules.p38 import Any, World
from .rules.p39 import Set, alike, own_entry, rows
from .trace import Stopped

LM = 'pelicun.model.loss_model.'
DS = LM + 'RepairModel_DS.'
LEVELS = ['cmp', 'loc', 'dir', 'uid', 'ds']
# quantities in each damage state
DAMAGE = {
    ('B.1', '1', '1', '0', '0'): [1.0, 0.0, 2.0],
    ('B.1', '1', '1', '0', '1'): [4.0, 2.0, 0.0],
    ('B.1', '1', '1', '0', '2'): [0.0, 3.0, 5.0],
    ('B.1', '1', '1', '7', '1'): [1.0, 1.0, 6.0],
    ('B.1', '1', '2', '0', '1'): [2.0, 0.0, 8.0],
    ('B.1', '1', '2', '0', '2'): [0.25, 1.0, 3.5],
    ('B.1', '1', '1', '7', '2'): [0.5, 2.25, 0.0],
    ('B.1', '3', '1', '0', '1'): [5.0, 2.0, 1.0],
    ('B.1', '3', '1', '0', '2'): [1.0, 0.0, 4.0],
    ('A.2', '1', '1', '0', '1'): [0.5, 0.25, 0.0],
    ('A.2', '2', '1', '0', '1'): [0.75, 1.5, 2.5],
    ('A.2', '2', '1', '0', '3'): [3.5, 0.0, 1.25],
    ('A.2', '2', '1', '0', '0'): [9.0, 9.0, 9.0],
    ('collapse', '0', '1', '0', '1'): [0.0, 0.0, 1.0],
    ('D.9', '2', '1', '0', '1'): [7.0, 6.0, 5.0],
}
MAP = {'B.1': 'con.B', 'A.2': 'con.A', 'collapse': 'con.X', 'Z.0': 'con.A', 'D.9': 'con.D'}
PARAMS = {
    ('con.A', 'Cost'): {('DS1', 'Theta_0'): '100.0,50.0|1.0,3.0', ('DS1', 'Family'): 'lognormal', ('DS1', 'Theta_1'): 0.5, ('DS3', 'Theta_0'): 11.0},
    ('con.A', 'Time'): {('DS1', 'Theta_0'): 3.0, ('DS1', 'Family'): 'normal', ('DS1', 'Theta_1'): 0.25, ('DS3', 'Theta_0'): '6.0,2.0|2.0,6.0'},
    ('con.B', 'Cost'): {('DS1', 'Theta_0'): '40.0,20.0|4.0,12.0', ('DS2', 'Theta_0'): 9.0, ('DS2', 'Family'): 'lognormal', ('DS2', 'Theta_1'): 0.125, ('DS3', 'Theta_0'): 13.0},
    ('con.B', 'Time'): {('DS1', 'Theta_0'): 2.0, ('DS2', 'Theta_0'): '5.0,1.0|3.0,5.0', ('DS2', 'Family'): 'normal', ('DS2', 'Theta_1'): 0.75},
    ('con.X', 'Cost'): {('DS1', 'Theta_0'): 1000.0},
}
MISSING = {('con.X', 'Time'), ('con.D', 'Cost'), ('con.D', 'Time')}


def table(data=None, levels=LEVELS):
    data = DAMAGE if data is None else data
    n = len(next(iter(data.values())))
    return Frame(Ix(list(range(n))), Ix(list(data), levels), [[data[c][i] for c in data] for i in range(n)])


def parameters(params=None):
    params = PARAMS if params is None else params
    cols = [('Quantity', 'Unit'), ('DV', 'Unit')]
    cols += [(ds, k) for ds in ('DS1', 'DS2', 'DS3') for k in ('Family', 'Theta_0', 'Theta_1')]
    return Frame(Ix(list(params)), Ix(cols), [['1 EA', 'USD', *[p.get(c, NAN) for c in cols[2:]]] for p in params.values()])


def loss_map(m=None):
    m = MAP if m is None else m
    return Frame(Ix(list(m)), Ix(['Repair']), [[v] for v in m.values()])


def model(floors, states, rho=0.0, params=None, dmap=None, missing=None, dvs=('Cost', 'Time')):
    options = Any(a_eco_scale={'AcrossFloors': floors, 'AcrossDamageStates': states}, a_rho_cost_time=rho, a_rng='rng', a_sampling_method='LHS')
    return Any(a__asmnt=Any(a_options=options), a_loss_map=loss_map(dmap), a_loss_params=None if params == {} else parameters(params), a_missing=MISSING if missing is None else missing, a_decision_variables=dvs, a_sample=None)


def deviation(names):
    """Values of the random variables: all different."""
    return {x: [1.0 + 0.125 * i + 0.015625 * j for j in range(3)] for i, x in enumerate(sorted(names))}


class Registry:
    """Stand-in for the random variables: what is defined, and a sample of it."""

    def __init__(self):
        self.got, self.sets, self.asked = [], [], []
        self.obj = Any(m_add_RV=self.got.append, m_add_RV_set=self.sets.append, m_RVs=self.rvs, m_generate_sample=lambda *a, **kw: self.asked.append({**dict(zip(('sample_size', 'method'), a)), **kw}))
        self.obj.m_add_RVs = lambda xs: self.got.extend(seq(xs))
        me = self

        class Live(type(self.obj)):
            @property
            def a_RV(self):
                return {g[2]: g for g in me.got}

            @property
            def a_RV_sample(self):
                return {k: Arr((3,), v) for k, v in deviation([g[2] for g in me.got]).items()}
        self.obj.__class__ = Live

    def rvs(self, names):
        have = {g[2]: g for g in self.got}
        return {x: have[x] for x in seq(names)}


class Variables(World):
    """The functions that define random variables, with a registry that records them."""

    def __init__(self, params, reg, stand=None):
        super().__init__(params, {'RandomVariableRegistry': lambda *_a: reg.obj, **(stand or {})})
        self.reg = reg
        self.must = ('add_RV', 'add_RV_set', 'add_RVs', 'generate_sample')

    def __call__(self, tr, n):
        if n.op == 'call' and n.args[0].op == 'call' and vq.bname(n.args[0]) == 'rv_class_map':
            (f,), _kw = tr.args(n.args[0])
            a, kw = tr.args(n)
            return self.make(f, *a, **kw)
        if n.op == 'new' and str(n.args[0]).endswith('RandomVariableRegistry'):
            return self.reg.obj
        if n.op == 'new' and str(n.args[0]).endswith('RandomVariableSet'):
            made = [e.node for e in tr.ip.events if e.kind == 'call' and e.node.op == 'call' and e.node.args[0].op == 'clsref' and e.node.args[0].args[0] == n.args[0] and e.node.site == n.site]
            if len(made) == 1:
                a, kw = tr.args(made[0])
                return Set(**{**dict(zip(('name', 'rv_list', 'rho'), a)), **kw})
        return super().__call__(tr, n)

    def make(self, f, name=None, theta=None, truncation_limits=None, **kw):
        if kw:
            raise Undecided('random variable')
        return ('rv', f, name, theta, truncation_limits)


# -- what the losses should be ------------------------------------------------------------
def curve(text, x):
    ys, xs = ([float(v) for v in part.split(',')] for part in text.split('|'))
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = max(j for j in range(len(xs)) if xs[j] <= x)
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def wanted(w):
    """Losses, random variables with their families and parameters, and the names of the pairs that are correlated."""
    groups, out, rvs = {}, {}, {}
    for (c, loc, _d, _u, s), q in w['damage'].items():
        if s != '0':
            k = (c, None if w['floors'] else loc, None if w['states'] else s)
            groups[k] = [(0.0 if isnan(a) else a) + (0.0 if isnan(b) else b) for a, b in zip(groups.get(k, [0.0] * len(q)), q)]
    cases = []
    for c, con in w['map'].items():
        for dv in w['dvs']:
            if (con, dv) not in w['params']:
                continue
            p = w['params'][con, dv]
            for (c2, loc, d, u, s), q in w['damage'].items():
                if c2 != c or s == '0' or ('DS' + s, 'Theta_0') not in p:
                    continue
                t0 = p['DS' + s, 'Theta_0']
                eco = groups[c, None if w['floors'] else loc, None if w['states'] else s]
                fam = p.get(('DS' + s, 'Family'))
                if isinstance(t0, str):
                    med = [curve(t0, x) for x in eco]
                else:
                    med = [1.0 if fam else t0] * len(q)
                name = f'{dv}-{c}-{s}-{loc}-{d}-{u}'
                if fam:
                    rvs[name] = (fam, [1.0 if isinstance(t0, str) else t0, *([p['DS' + s, 'Theta_1']] if ('DS' + s, 'Theta_1') in p else [])])
                cases.append(((dv, con, c, s, loc, d, u), q, med, name if fam else None))
    dev = deviation(rvs)
    for k, q, med, name in cases:
        out[k] = [0.0 if isnan(x) else x * m * (dev[name][j] if name else 1.0) for j, (x, m) in enumerate(zip(q, med))]
    pairs = {(n, 'Time' + n[4:]) for n in rvs if n.startswith('Cost-') and 'Time' + n[4:] in rvs} if w['rho'] else set()
    return out, rvs, pairs


def cases():
    base = {'damage': DAMAGE, 'map': MAP, 'params': PARAMS, 'missing': MISSING, 'dvs': ('Cost', 'Time'), 'rho': 0.0}
    for f, s in ((True, False), (True, True), (False, True), (False, False)):
        yield f'floors {f}, states {s}', {**base, 'floors': f, 'states': s, 'rho': 0.5 if f == s else 0.0}
    few = {k: v for k, v in DAMAGE.items() if k[0] == 'A.2'}
    yield 'constant consequences', {**base, 'floors': False, 'states': False, 'damage': few, 'params': {('con.A', 'Cost'): {('DS1', 'Theta_0'): 12.0}, ('con.A', 'Time'): {('DS1', 'Theta_0'): 3.0, ('DS3', 'Theta_0'): 4.0}}, 'map': {'A.2': 'con.A'}, 'missing': set(), 'rho': 0.25}
    yield 'one random variable', {**base, 'floors': True, 'states': False, 'damage': few, 'params': {('con.A', 'Cost'): {('DS1', 'Theta_0'): 12.0}, ('con.A', 'Time'): {('DS1', 'Theta_0'): 3.0, ('DS3', 'Theta_0'): 4.0, ('DS3', 'Family'): 'lognormal', ('DS3', 'Theta_1'): 0.25}}, 'map': {'A.2': 'con.A'}, 'missing': set()}
    carbon = {(a, 'Carbon' if b == 'Time' else b): v for (a, b), v in PARAMS.items()}
    yield 'other decision variables', {**base, 'floors': False, 'states': False, 'params': carbon, 'missing': {('con.X', 'Carbon'), ('con.D', 'Cost'), ('con.D', 'Carbon')}, 'dvs': ('Carbon', 'Cost'), 'rho': 0.5}
    yield 'unknown quantities', {**base, 'floors': True, 'states': False, 'damage': {**few, ('A.2', '1', '1', '0', '1'): [0.5, NAN, NAN], ('A.2', '2', '1', '0', '1'): [0.75, 1.5, NAN]}}
    yield 'one consequence for two components', {**base, 'floors': False, 'states': True, 'damage': {**DAMAGE, ('Z.0', '2', '1', '0', '1'): [8.0, 4.0, 2.0], ('Z.0', '1', '2', '0', '3'): [0.5, 0.25, 1.75]}}
    yield 'consequences of another model', {**base, 'floors': False, 'states': False, 'damage': {**DAMAGE, ('E.0', '2', '1', '0', '1'): [8.0, 4.0, 2.0], ('F.0', '1', '2', '0', '1'): [0.5, 0.25, 1.75]}, 'map': {'E.0': 'con.E', **MAP, 'F.0': 'con.F'}, 'params': {**PARAMS, ('con.E', 'Time'): PARAMS['con.B', 'Time']}, 'rho': 0.5}
    yield 'deterministic consequences', {**base, 'floors': True, 'states': True, 'params': {**PARAMS, ('con.B', 'Time'): {**PARAMS['con.B', 'Time'], ('DS1', 'Family'): 'deterministic'}}, 'rho': 0.0}
    yield 'diseconomies of scale', {**base, 'floors': False, 'states': False, 'rho': -0.25, 'params': {**PARAMS, ('con.B', 'Time'): {('DS1', 'Theta_0'): '0.5,1.0,8.0|1.0,3.0,6.0', ('DS2', 'Theta_0'): '1.0,5.0|2.0,4.0'}}}
    yield 'components with Cost in their name', {**base, 'floors': False, 'states': False, 'rho': 0.75, 'damage': {(k[0].replace('B.1', 'Cost.1'), *k[1:]): v for k, v in DAMAGE.items()}, 'map': {k.replace('B.1', 'Cost.1'): v for k, v in MAP.items()}}
    yield 'no damage', {**base, 'floors': True, 'states': False, 'damage': {k: v for k, v in DAMAGE.items() if k[-1] == '0'}}
    yield 'damage without consequences', {**base, 'floors': True, 'states': False, 'damage': {k: v for k, v in DAMAGE.items() if k[0] == 'D.9' or k[-1] == '0'}}
    yield 'only consequences of another model', {**base, 'floors': False, 'states': False, 'params': {}, 'missing': set()}
    yield 'damage states without consequences', {**base, 'floors': False, 'states': False, 'damage': {('B.1', '1', '1', '0', '3'): [1.0, 2.0, 3.0], ('B.1', '1', '1', '0', '0'): [1.0, 2.0, 3.0]}, 'params': {k: {x: y for x, y in v.items() if x[0] != 'DS3'} for k, v in PARAMS.items()}}


def losses(ctx, res, skipped, rule):
    at = DS + 'calculate'
    for what, w in cases():
        me = model(w['floors'], w['states'], w['rho'], w['params'], w['map'], w['missing'], w['dvs'])
        me.a_sample = 'losses of an earlier calculation'
        reg = Registry()
        try:
            tr = FTrace(ctx.interp(at, opaque=('Logger', 'pelicun.uq', 'pelicun.file_io'), key='lossworld', hooks={'index': own_entry}), Variables({'self': me, 'dmg_quantities': table(w['damage'])}, reg)).run()
            exp, rvs, pairs = wanted(w)
            if tr.raised:
                res.check(rule['product'], False, what, at, f'{what}: {tr.raised.name} is raised')
                continue
            compare(res, rule, what, me.a_sample, exp, at)
            defined(res, rule, what, reg, rvs, pairs, w['rho'], at)
        except (Undecided, Stopped) as exc:
            skipped.append(f'losses, {what}: {exc}')
        except Raised as exc:
            res.check(rule['product'], False, what, at, f'{what}: {exc.name} is raised')


def compare(res, rule, what, sample, exp, at):
    if not exp:
        res.check(rule['every'], sample is None or isinstance(sample, Frame) and not any(x for r in sample.rows for x in r), f'{what}: no losses', at, f'{what}: the sample is {getattr(sample, "columns", sample)}')
        return
    if not isinstance(sample, Frame):
        if sample is None or isinstance(sample, str):
            res.check(rule['every'], False, f'{what}: sample', at, f'{what}: no sample of losses is kept')
            return
        raise Undecided('sample')
    names = sample.columns.names
    res.check(rule['key'], names == ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'], f'{what}: levels', at, f'{what}: the levels of the sample are {names}')
    have = dict(zip(sample.columns.vals, zip(*sample.rows)))
    lost = [k for k in exp if k not in have]
    more = [k for k in have if k not in exp and any(have[k])]
    res.check(rule['every'], not lost, f'{what}: complete', at, f'{what}: the loss of {lost[:1]} is missing')
    res.check(rule['key'], not more and len(have) == len(sample.columns), f'{what}: keys', at, f'{what}: there is a loss of {more[:1]}')
    bad = [k for k in exp if k in have and not alike(list(have[k]), exp[k])]
    res.check(rule['product'], not bad, f'{what}: values', at, ''.join(f'{what}: the loss of {k} is {list(have[k])}, not {exp[k]}' for k in bad[:1]))


def defined(res, rule, what, reg, rvs, pairs, rho, at):
    have = {g[2]: g for g in reg.got}
    res.check(rule['deviation'], len(have) == len(reg.got) and set(have) == set(rvs), f'{what}: deviations', at, f'{what}: there are random variables for {sorted(have)}, not for {sorted(rvs)}')
    for n, (fam, theta) in rvs.items():
        if n in have:
            g = have[n]
            got = [x for x in seq(g[3]) if not isnan(x)]
            limits = None if g[4] is None else list(seq(g[4]))
            if fam != 'deterministic':
                res.check(rule['deviation'], limits is not None and len(limits) == 2 and limits[0] == 0 and (limits[1] is None or isnan(limits[1]) or limits[1] == float('inf')), f'{what}: {n}: limits', at, f'{what}: {n} is limited to {limits}')
            res.check(rule['deviation'], g[1] == fam and alike([float(x) for x in got], theta), f'{what}: {n}', at, f'{what}: {n} is {g[1]} with {got}, not {fam} with {theta}')
    if rvs:
        res.check(rule['deviation'], reg.asked == [{'sample_size': 3, 'method': 'LHS'}], f'{what}: sample', at, f'{what}: the random variables are sampled with {reg.asked}')
    got = {tuple(sorted(g[2] for g in seq(x.rv_list))) for x in reg.sets}
    res.check(rule['pair'], len(reg.sets) == len(got) and got == pairs, f'{what}: pairs', at, f'{what}: the pairs that are correlated are {sorted(got)}, not {sorted(pairs)}')
    names = [x.name for x in reg.sets]
    if all(isinstance(x, str) for x in names):
        res.check(rule['pair'], len(set(names)) == len(names), f'{what}: sets', at, f'{what}: pairs share a set: {sorted(x for x in names if names.count(x) > 1)[:1]}')
    for x in reg.sets:
        res.check(rule['pair'], alike(rows(x.rho) if isinstance(x.rho, (Arr, Frame)) else [list(r) for r in x.rho], [[1.0, rho], [rho, 1.0]]), f'{what}: correlation', at, f'{what}: the correlation is not {rho}')


# -- loss functions ---------------------------------------------------------------------------
LF = LM + 'RepairModel_LF.'
DEMAND = {
    ('PFA', '0', '1'): [1.0, 2.0, 3.0], ('PFA', '0', '2'): [2.5, 1.5, 0.5],
    ('PFA', '1', '1'): [1.5, 2.5, 3.5], ('PFA', '1', '2'): [1.25, 3.0, 2.0],
    ('PFA', '2', '1'): [0.5, 4.0, 1.0], ('PFA', '2', '2'): [0.75, 3.25, 1.75],
    ('PID', '1', '1'): [0.125, 0.25, 0.375], ('PID', '1', '2'): [0.5, 0.0625, 0.1875],
    ('PID', '2', '1'): [0.25, 0.5, 0.125], ('PID', '2', '2'): [0.375, 0.1875, 0.625],
}
GROUPS = {
    ('F.2', '1', '1', '0'): ([3.0, 5.0, 7.0], 2), ('F.2', '2', '1', '0'): ([2.0, 2.0, 2.0], 1), ('F.2', '1', '2', '0'): ([4.0, 4.5, 5.0], 4),
    ('E.1', '1', '0', '0'): ([10.0, 11.0, 12.0], 1), ('E.1', '2', '0', '1'): ([6.0, 9.0, 3.0], 3), ('E.1', '1', '1', '7'): ([1.5, 2.5, 0.5], 1),
    ('B.1', '1', '1', '0'): ([8.0, 8.0, 8.0], 2),
}
LMAP = {'F.2': 'lf.F', 'E.1': 'lf.E', 'B.1': 'con.B', 'G.3': 'lf.F'}
LPAR = {
    ('lf.E', 'Cost'): ('Peak Floor Acceleration', 0.0, 0, '0.0,10.0,40.0|0.0,2.0,8.0', 'lognormal', 0.5),
    ('lf.E', 'Time'): ('Peak Floor Acceleration', 0.0, 0, '1.0,5.0|0.0,8.0', None, None),
    ('lf.F', 'Cost'): ('Peak Interstory Drift Ratio', 0.0, 1, '0.0,100.0|0.0,1.0', 'normal', 0.25),
    ('lf.F', 'Time'): ('Peak Interstory Drift Ratio', 0.0, 1, '2.0,4.0,12.0|0.0,0.25,1.0', 'lognormal', 0.125),
}
KIND = {'Peak Floor Acceleration': 'PFA', 'Peak Interstory Drift Ratio': 'PID'}


def functions_table(params):
    cols = [('Demand', 'Directional'), ('Demand', 'Offset'), ('Demand', 'Type'), ('DV', 'Unit'), ('LossFunction', 'Family'), ('LossFunction', 'Theta_0'), ('LossFunction', 'Theta_1')]
    if not any(p[4] for p in params.values()):
        cols = [c for c in cols if c[1] not in ('Family', 'Theta_1')]
    full = lambda p: {('Demand', 'Directional'): p[2], ('Demand', 'Offset'): p[1], ('Demand', 'Type'): p[0], ('DV', 'Unit'): 'USD', ('LossFunction', 'Family'): p[4] or NAN, ('LossFunction', 'Theta_0'): p[3], ('LossFunction', 'Theta_1'): NAN if p[5] is None else p[5]}  # noqa: E731
    return Frame(Ix(list(params)), Ix(cols), [[full(p)[c] for c in cols] for p in params.values()])


class Functions(Variables):
    """Variables, and interpolation of loss functions."""

    def __call__(self, tr, n):
        if n.op == 'call' and n.args[0].op == 'call' and n.args[0].args[0].op == 'ext' and vq.bname(n.args[0]) == 'interp1d':
            a, kw = tr.args(n.args[0])
            kw = {**dict(zip(('x', 'y', 'kind'), a)), **kw}
            if kw.pop('kind', 'linear') != 'linear' or kw.pop('bounds_error', True) is not True or set(kw) != {'x', 'y'}:
                raise Undecided('interpolation')
            xs, ys = list(seq(kw['x'])), list(seq(kw['y']))
            if len(xs) != len(ys):
                raise Raised('ValueError', 'ValueError')
            (v,), _kw = tr.args(n)
            if any(x < min(xs) or x > max(xs) for x in seq(v)):
                raise Raised('ValueError', 'ValueError')
            return from_points(xs, ys, v)
        return super().__call__(tr, n)


def from_points(xs, ys, v):
    pts = sorted(zip(xs, ys))
    return interp(v, [x for x, _y in pts], [y for _x, y in pts])


def expected(w):
    out, rvs = {}, {}
    cases_ = []
    for (c, loc, d, u), (q, blocks) in w['groups'].items():
        con = w['map'].get(c)
        for dv in w['dvs']:
            if (con, dv) not in w['params']:
                continue
            kind, offset, directional, text, fam, t1 = w['params'][con, dv]
            k = KIND[kind]
            at = str(int(loc) + int(offset) + w['offset'].get(k, 0))
            if directional:
                x = w['demand'][k, at, d]
            else:
                m = w['mult'].get(k, w['mult'].get('ALL'))
                x = [m * max(v) for v in zip(*[w['demand'][y] for y in w['demand'] if y[:2] == (k, at)])]
            n = blocks if w['blocks'] else 1
            names = [f'{dv}-{con}-{c}-{loc}-{d}-{u}-{b}' for b in range(n)]
            if fam:
                for nm in names:
                    rvs[nm] = (fam, [1.0, t1])
            cases_.append(((dv, con, c, loc, d, u), [curve(text, y) * z / n for y, z in zip(x, q)], names if fam else None, n))
    dev = deviation(rvs)
    for k, v, names, n in cases_:
        out[k] = [sum(x * (dev[nm][j] if nm else 1.0) for nm in (names or [None] * n)) for j, x in enumerate(v)]
    pairs = {(n, 'Time' + n[4:]) for n in rvs if n.startswith('Cost-') and 'Time' + n[4:] in rvs} if w['rho'] else set()
    return out, rvs, pairs


def lcases():
    base = {'demand': DEMAND, 'groups': GROUPS, 'map': LMAP, 'params': LPAR, 'missing': set(), 'dvs': ('Cost', 'Time'), 'rho': 0.0, 'offset': {'PFA': -1}, 'mult': {'ALL': 1.5}, 'blocks': True}
    yield 'loss functions', base
    yield 'correlated', {**base, 'rho': 0.5, 'offset': {}, 'mult': {'ALL': 1.5, 'PFA': 1.25}}
    yield 'no blocks', {**base, 'blocks': False}
    yield 'deterministic', {**base, 'params': {k: (*v[:4], None, None) for k, v in LPAR.items()}, 'rho': 0.5}
    yield 'missing parameters', {**base, 'params': {k: v for k, v in LPAR.items() if k != ('lf.E', 'Time')}, 'missing': {('lf.E', 'Time')}, 'rho': 0.25}
    yield 'one decision variable', {**base, 'params': {('lf.E', 'Carbon') if k == ('lf.E', 'Cost') else ('lf.F', 'Carbon'): v for k, v in LPAR.items() if k[1] == 'Cost'}, 'dvs': ('Carbon',)}
    yield 'no component with a loss function', {**base, 'groups': {k: v for k, v in GROUPS.items() if k[0] == 'B.1'}}


def functions(ctx, res, skipped, rule):
    at = LF + 'calculate'
    for what, w in lcases():
        options = Any(a_rho_cost_time=w['rho'], a_rng='rng', a_sampling_method='LHS')
        me = Any(a__asmnt=Any(a_options=options), a_loss_map=loss_map(w['map']), a_loss_params=functions_table(w['params']), a_missing=w['missing'], a_decision_variables=w['dvs'], a_sample=None)
        reg = Registry()
        gs = w['groups']
        lv = ['cmp', 'loc', 'dir', 'uid']
        par = {'self': me, 'demand_sample': table(w['demand'], ['type', 'loc', 'dir']), 'cmp_sample': {k: Ser(Ix([0, 1, 2]), list(q), k) for k, (q, _b) in gs.items()},
               'cmp_marginal_params': Frame(Ix(list(gs), lv), Ix(['Units', 'Blocks'] if w['blocks'] else ['Units']), [['ea', b] if w['blocks'] else ['ea'] for _q, b in gs.values()]),
               'demand_offset': w['offset'], 'nondirectional_multipliers': w['mult']}
        try:
            tr = FTrace(ctx.interp(at, opaque=('Logger', 'pelicun.uq', 'pelicun.file_io'), key='lossworld', hooks={'index': own_entry}), Functions(par, reg)).run()
            exp, rvs, pairs = expected(w)
            if tr.raised:
                res.check(rule['function'], False, what, at, f'{what}: {tr.raised.name} is raised')
                continue
            s = me.a_sample
            if not exp:
                res.check(rule['function'], s is None, f'{what}: no losses', at, f'{what}: the sample is {s}')
                continue
            if not isinstance(s, Frame):
                raise Undecided('sample') if s is not None else Raised('no sample', 'no sample')
            have = dict(zip(s.columns.vals, zip(*s.rows)))
            res.check(rule['key'], s.columns.names == ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid'] and set(have) == set(exp) and len(have) == len(s.columns), f'{what}: keys', at, f'{what}: there are losses of {sorted(have)}, not of {sorted(exp)}')
            bad = [k for k in exp if k in have and not alike(list(have[k]), exp[k])]
            res.check(rule['function'], not bad, f'{what}: values', at, ''.join(f'{what}: the loss of {k} is {list(have[k])}, not {exp[k]}' for k in bad[:1]))
            defined(res, rule, what, reg, rvs, pairs, w['rho'], at)
        except (Undecided, Stopped) as exc:
            skipped.append(f'functions, {what}: {exc}')
        except Raised as exc:
            res.check(rule['function'], False, what, at, f'{what}: {exc.name} is raised')
