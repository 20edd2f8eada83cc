"""Samples of the variables of a registry, followed from the source for small registries."""

from __future__ import annotations

import random

from .. import vq
from ..ceval import NO, Raised, Undecided
from ..lframe import Arr, FTrace, Obj
from ..trace import Stopped
from .p38 import World
from .p39 import own_entry
from .p40 import judged

CLS = 'pelicun.uq.RandomVariableRegistry'
AT = CLS + '.generate_sample'
RULE = 'every variable of a registry has its own uniform numbers, and they are correlated in all sets before they are transformed'
OPAQUE = ('BaseRandomVariable', 'RandomVariable', 'UtilityRandomVariable', 'RandomVariableSet', 'apply_correlation', 'inverse_transform_sampling')
KINDS = {'normal': 'RandomVariable', 'uniform': 'RandomVariable', 'lognormal': 'RandomVariable', 'multinomial': 'RandomVariable', 'deterministic': 'UtilityRandomVariable', 'coupled_empirical': 'UtilityRandomVariable'}


class Story:
    def __init__(self):
        self.steps = []


class Variable(Obj):
    """A random variable: what is done with it is told."""

    def __init__(self, story, name, distribution, anchor=None, kind=None):
        self.story, self.a_name, self.a_distribution = story, name, distribution
        self.kind = KINDS[distribution] if kind is None else kind
        self.a_anchor = self.a__anchor = self if anchor is None else anchor
        self.a__uni_sample = self.a__sample = None

    def zip(self, o, f, rev=False):
        if isinstance(o, Variable) or o is None:
            return f(o, self) if rev else f(self, o)
        raise Undecided('operation')

    @property
    def a_uni_sample(self):
        return (self if self.a_anchor is self else self.a_anchor).a__uni_sample

    def store(self, name, v):
        if name not in ('uni_sample', '_uni_sample'):
            raise Undecided(f'{name} of a variable')
        if not isinstance(v, Arr):
            raise Undecided('uniform numbers')
        self.a__uni_sample = v
        self.story.steps.append(('assign', self.a_name))

    def s_uni_sample(self, v):
        self.store('uni_sample', v)

    s__uni_sample = s_uni_sample

    def m_inverse_transform_sampling(self, *a, **kw):
        if kw.keys() - {'sample_size'} or len(a) + len(kw) > 1:
            raise Raised('TypeError', 'TypeError')
        a = (*a, *kw.values())
        if (self.kind == 'UtilityRandomVariable') != bool(a):
            raise Raised('TypeError', 'TypeError')
        self.story.steps.append(('transform', self.a_name, *a))


class Together(Obj):
    """A set of variables."""

    def __init__(self, story, name, members):
        self.story, self.a_name, self.members = story, name, members
        self.a_RV = self.a__variables = {m.a_name: m for m in members}
        self.a_size = len(members)

    def m_apply_correlation(self):
        self.story.steps.append(('correlate', self.a_name))
        for m in self.members:
            if m.a_uni_sample is None:
                raise Raised('TypeError', 'TypeError')


def shape(size):
    if size is None:
        raise Undecided('a single number')
    s = list(size) if isinstance(size, (list, tuple)) else [size]
    if not all(isinstance(x, int) for x in s):
        raise Undecided('size')
    return s


class Generator(Obj):
    def __init__(self, seed):
        self.r = random.Random(seed)

    def m_random(self, size=None, *_a, **_kw):
        s = shape(size)
        n = 1
        for x in s:
            n *= x
        return Arr(s, [self.r.random() for _ in range(n)])

    def m_uniform(self, low=0.0, high=1.0, size=None):
        x = self.m_random(size)
        return x.map(lambda v: low + (high - low) * v)

    def m_permutation(self, n):
        if not isinstance(n, int):
            raise Undecided('permutation')
        v = list(range(n))
        self.r.shuffle(v)
        return Arr([n], v)


class Registry(Obj):
    def __init__(self, variables, sets):
        self.a_RV = self.a__variables = {v.a_name: v for v in variables}
        self.a_RV_set = self.a__sets = {s.a_name: s for s in sets}
        self.a__rng = Generator(7)


class Own(World):
    """The kind of a variable is the one of its class."""

    def __call__(self, tr, n):
        if n.op == 'call' and vq.bname(n) == 'isinstance' and len(n.args[1]) == 2:
            x = tr.ev(n.args[1][0])
            if isinstance(x, Variable):
                cs = n.args[1][1]
                names = [str(c.args[0]).rsplit('.', 1)[-1] for c in (cs.args[0] if cs.op in ('tuple', 'list') else [cs]) if c.args]
                if not names or any(k not in ('RandomVariable', 'UtilityRandomVariable', 'BaseRandomVariable') for k in names):
                    raise Undecided('kind of a variable')
                return x.kind in names or x.kind is not None and 'BaseRandomVariable' in names
        return super().__call__(tr, n)


def registry(story, names, sets, anchors=()):
    vs = {}
    for n, d in names:
        vs[n] = Variable(story, n, d, vs.get(dict(anchors).get(n)))
    return Registry(vs.values(), [Together(story, k, [vs[m] for m in ms]) for k, ms in sets.items()])


FIVE = [('a', 'normal'), ('b', 'uniform'), ('c', 'lognormal'), ('d', 'normal'), ('e', 'multinomial')]
CASES = {
    'one variable': ([('x', 'normal')], {}, ()),
    'no set': (FIVE, {}, ()),
    'one set': (FIVE, {'s': ['a', 'c']}, ()),
    'sets': (FIVE, {'t': ['d', 'b'], 's': ['a', 'c', 'e']}, ()),
    'set of one': (FIVE, {'r': ['e'], 's': ['c', 'a'], 't': ['b']}, ()),
    'utility': ([('k', 'deterministic'), *FIVE, ('m', 'coupled_empirical'), ('n', 'deterministic')], {'s': ['e', 'd'], 't': ['a', 'b']}, ()),
    'anchored': ([*FIVE, ('f', 'normal'), ('g', 'uniform'), ('h', 'normal')], {'s': ['a', 'b'], 't': ['d', 'c']}, (('f', 'a'), ('g', 'a'), ('h', 'e'))),
    'anchored utility': ([('k', 'deterministic'), *FIVE, ('l', 'lognormal')], {'s': ['c', 'd']}, (('l', 'b'),)),
}


def trace(ctx, me, size, method):
    w = Own({'self': me, 'sample_size': size, 'method': method})
    return FTrace(ctx.interp(AT, opaque=OPAQUE, key='registry', hooks={'index': own_entry}, self_cls=CLS), w).run()


def generated(ctx, res, skipped):
    ip = ctx.interp(AT, opaque=OPAQUE, key='registry', hooks={'index': own_entry}, self_cls=CLS)
    early = [e for e in ip.events if e.kind == 'jump' and e.value == 'break' and any(number(x) for g, _p, _k in e.guards for x in vq.walk(g))]
    res.check('generated', not early, 'no number ends the sampling early', AT, 'a loop over variables or sets is left when a number is reached')
    for what, (names, sets, anchors) in CASES.items():
        for method in ('MonteCarlo', 'LHS', 'LHS_midpoint'):
            for size in (1, 7) if what in ('no set', 'sets') else (7,):
                label = f'{what}: {method} of {size}'
                story = Story()
                me = registry(story, names, sets, anchors)
                if judged(skipped, res, 'generated', label, AT, lambda: trace(ctx, me, size, method)) is None:
                    continue
                told(res, label, me, story, size, method)
    for method in ('other', 'lhs', None):
        me = registry(Story(), FIVE, {})
        try:
            tr = trace(ctx, me, 5, method)
            raised = tr.raised.name if tr.raised else None
        except Raised as exc:
            raised = exc.name
        except (Undecided, Stopped) as exc:
            skipped.append(f'{method}: {exc}')
            continue
        res.check('generated', raised == 'ValueError', f'method {method}', AT, f'method {method}: {raised or "no exception"} is raised')


def told(res, label, me, story, size, method):
    steps = story.steps
    free = [n for n, v in me.a_RV.items() if v.a_anchor is v and v.kind == 'RandomVariable']
    own = {n: me.a_RV[n].a__uni_sample for n in free}
    none = [n for n, v in own.items() if v is None or v.shape != (size,)]
    if not res.check('generated', not none, f'{label}: uniform numbers', AT, f'{label}: {none} have no {size} uniform numbers'):
        return
    rows = {n: tuple(v.flat) for n, v in own.items()}
    if size > 1 and method != 'LHS_midpoint':
        res.check('generated', len(set(rows.values())) == len(rows), f'{label}: own numbers', AT, f'{label}: variables have the same uniform numbers')
    wrong = [n for n, r in rows.items() if not all(0 <= x < 1 for x in r)]
    if method != 'MonteCarlo':
        wrong += [n for n, r in rows.items() if sorted(int(x * size + 1e-9) for x in r) != list(range(size))]
    if method == 'LHS_midpoint':
        wrong += [n for n, r in rows.items() if any(abs(x * size - int(x * size) - 0.5) > 1e-9 for x in r)]
    if method != 'LHS_midpoint' and size > 1:
        wrong += [n for n, r in rows.items() if len({round(x * size - int(x * size), 9) for x in r}) == 1]
    res.check('generated', not wrong, f'{label}: distribution of the numbers', AT, f'{label}: the uniform numbers of {sorted(set(wrong))} are not those of the method')
    bad = [n for n in me.a_RV if [s for s in steps if s[0] == 'transform' and s[1] == n] != [('transform', n, *([size] if me.a_RV[n].kind == 'UtilityRandomVariable' else []))]]
    res.check('generated', not bad, f'{label}: every variable', AT, f'{label}: {bad} are not sampled once')
    bad = [n for n in me.a_RV_set if [s for s in steps if s[0] == 'correlate' and s[1] == n] != [('correlate', n)]]
    res.check('generated', not bad, f'{label}: every set', AT, f'{label}: the sets {bad} are not correlated once')
    at = {}
    for i, s in enumerate(steps):
        at.setdefault(s[:2], []).append(i)
    late = []
    for k, g in me.a_RV_set.items():
        for m in g.members:
            i = at.get(('correlate', k), [0])[0]
            if at.get(('assign', m.a_name), [0])[-1] > i or at.get(('transform', m.a_name), [len(steps)])[0] < i:
                late.append((k, m.a_name))
    for n, v in me.a_RV.items():
        if v.a_anchor is not v and at.get(('transform', n), [len(steps)])[0] < max([at.get(('correlate', k), [0])[0] for k, g in me.a_RV_set.items() if v.a_anchor in g.members] or [0]):
            late.append((n, v.a_anchor.a_name))
    res.check('generated', not late, f'{label}: order', AT, f'{label}: {late[:3]} are not assigned, correlated and transformed in this order')


def taken(ctx, res, skipped):
    """A second variable of the same name is rejected, and the first one stays."""
    at = CLS + '.add_RV'
    for what, given, name in (('first', [], 'a'), ('new', ['a', 'b'], 'c'), ('taken', ['a', 'b'], 'a'), ('taken, last', ['a', 'b'], 'b'), ('case', ['a'], 'A')):
        story = Story()
        me = registry(story, [(n, 'normal') for n in given], {})
        old = dict(me.a_RV)
        new = Variable(story, name, 'uniform')
        try:
            tr = FTrace(ctx.interp(at, key='registry', hooks={'index': own_entry}, self_cls=CLS), Own({'self': me, 'rv': new})).run()
            raised = tr.raised.name if tr.raised else None
        except Raised as exc:
            raised = exc.name
        except (Undecided, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
            continue
        if name in given:
            again(ctx, res, skipped, me, name)
            res.check('generated', raised == 'ValueError', f'{what}: rejected', at, f'{what}: {raised or "no exception"} is raised')
            res.check('generated', me.a__variables == old, f'{what}: variables', at, f'{what}: the variables of the registry are {sorted(me.a__variables)}')
        else:
            res.check('generated', raised is None and me.a__variables == {**old, name: new}, f'{what}: added', at, f'{what}: {raised or sorted(me.a__variables)}')


def again(ctx, res, skipped, me, name):
    at = CLS + '.add_RV'
    try:
        tr = FTrace(ctx.interp(at, key='registry', hooks={'index': own_entry}, self_cls=CLS), Own({'self': me, 'rv': me.a_RV[name]})).run()
        raised = tr.raised.name if tr.raised else None
    except Raised as exc:
        raised = exc.name
    except (Undecided, Stopped) as exc:
        skipped.append(f'the same variable: {exc}')
        return
    res.check('generated', raised == 'ValueError', f'the same variable, {name}: rejected', at, f'the same variable again: {raised or "no exception"} is raised')


def sets(ctx, res, skipped):
    at = CLS + '.add_RV_set'
    story = Story()
    for given in ([], ['s'], ['s', 't']):
        me = registry(story, FIVE, {k: ['a', 'b'] for k in given})
        old = dict(me.a_RV_set)
        new = Together(story, 'n', list(me.a_RV.values())[2:4])
        if judged(skipped, res, 'generated', f'a set after {given}', at, lambda: FTrace(ctx.interp(at, key='registry', hooks={'index': own_entry}, self_cls=CLS), Own({'self': me, 'rv_set': new})).run()) is not None:
            res.check('generated', me.a__sets == {**old, 'n': new}, f'a set after {given}: added', at, f'a set after {given}: the sets are {sorted(me.a__sets)}')


WORDS = {'MonteCarlo', 'LHS', 'LHS_midpoint', 'deterministic', 'coupled_empirical', 'multinomial', 'Unknown RV parent class.'}


def number(x):
    return x.op == 'const' and x.args[0] in ('int', 'float') and float(x.args[-1]) not in (0.0, 1.0, -1.0, 2.0, 0.5)


def word(x):
    return x.op == 'const' and x.args[0] == 'str' and x.args[-1] not in WORDS


def special(ctx, at, opaque=()):
    """Whether a number or a text decides what is done: the registries that are tried do not stand for all others then."""
    ip = ctx.interp(at, opaque=opaque, key='registry', hooks={'index': own_entry}, self_cls=CLS)
    for e in ip.events:
        told = [g for g, _p, _k in e.guards] + [lp.iter for lp in e.loops if lp.iter is not None]
        done = [x for x in (e.node, e.value, e.target) if e.kind != 'raise' and hasattr(x, 'op')]
        if any(number(x) or word(x) for r in told for x in vq.walk(r)) or any(number(x) for r in done for x in vq.walk(r)):
            return True
    return False
