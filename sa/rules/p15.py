"""P15: damage processes change exactly the prescribed components, in the prescribed order."""

from __future__ import annotations

import ast

from ..flow import cval, is_const, show
from .. import vq
from ..vq import leaves, walk
from . import p42
from .backed import Backed, follow

EXPLANATION = (
    'The assignments to the damage state sample made by the damage process are read off the value-flow graph of the damage '
    'calculation: the rows and columns they select, the damage state they assign and the order of the tasks.'
)
CALC = 'pelicun.model.damage_model.DamageModel.calculate'


def calc(ctx):
    return ctx.interp(CALC, opaque=('Logger', 'obtain_ds_sample'), key='p15')


def run(ctx, res):
    res.rule('order', 'tasks are performed in the numeric order of the numbers in front', 0)
    res.rule('every', 'every task, event and target is performed', 0)
    res.rule('rows', 'an event is triggered where the highest damage state of the source is the one given', 0)
    res.rule('columns', 'the target component is changed, or all components but the source', 0)
    res.rule('location', 'with -LOC source and target are matched by location', 0)
    res.rule('state', 'the target gets the damage state given, or none for NA', 0)
    for k in ('task', 'calculate'):
        res.rule(k, p42.RULES[k], 0)
    skipped = []
    done = follow(ctx, res, (p42.tasks,), skipped)
    called = follow(ctx, res, (p42.calculated,), skipped)
    res = Backed(res, {**dict.fromkeys(('rows', 'columns', 'location', 'state'), done), 'every': done and called, 'order': called})
    ip = calc(ctx)
    n = 0
    for e in ip.events:
        if e.kind != 'store_index' or e.target is None or e.node is None:
            continue
        t = e.target
        if t.op == 'attr' and t.args[1] in ('iloc', 'loc', 'values') and is_dss(t.args[0]) and e.node.op == 'tuple' and len(e.node.args) == 2:
            if not any(lvl(g.args[0]) == 0 for g, _p, k in e.guards if k == 'loop' and g.op == 'iter'):
                continue
            n += 1
            event(ctx, res, ip, e, skipped)
    if not n:
        skipped.append('no assignment to the damage states')
    order(ctx, res, ip, skipped)
    res.analysed['assignments'] = n
    res.analysed['not_judged'] = skipped


def is_dss(n):
    return n.op == 'attr' and n.args[1] == 'ds_sample'


# -- parts of a damage process ---------------------------------------------
def lvl(n):
    """Nesting level of a container of the damage process: 0 tasks, 1 events, 2 targets."""
    if n.op in ('param', 'arg') and 'process' in show(n, 1):
        return 0
    if n.op == 'index':
        x = lvl(n.args[0])
        return None if x is None else x + 1
    if vq.mcall(n, 'keys', 'items', 'values', 'copy'):
        return lvl(vq.recv(n))
    if vq.xcall(n, 'sorted', 'list', 'tuple', 'dict', 'iter') and n.args[1]:
        return lvl(n.args[1][0])
    if n.op == 'dcomp':
        x = lvl(n.args[1])
        return None if x is None else x - 1
    if n.op == 'ite':
        xs = {lvl(x) for _c, x in leaves(n)} - {None}
        return xs.pop() if len(xs) == 1 else None
    return None


def kind(n):
    """Which text of the damage process a value is."""
    ks = set()
    for _c, x in leaves(n):
        if x.op == 'elem':
            k = {0: 'task', 1: 'event', 2: 'info'}.get(lvl(x.args[0]))
        elif x.op == 'index':
            k = 'info' if lvl(x) == 2 else None
            if x.args[0].op == 'elem' and vq.mcall(x.args[0].args[0], 'items') and is_const(x.args[1], 0):
                k = {0: 'task', 1: 'event'}.get(lvl(x.args[0].args[0]))
        else:
            k = None
        ks.add(k)
    return ks.pop() if len(ks) == 1 else None


def cut(n):
    """(side, which separator, text) of a part of a text cut at '_'."""
    if n.op == 'index' and is_const(n.args[1]):
        i, c = cval(n.args[1]), n.args[0]
        if c.op == 'call' and vq.recv(c) is not None and c.args[1] and is_const(c.args[1][0], '_'):
            b = vq.bname(c)
            one = len(c.args[1]) > 1 and is_const(c.args[1][1], 1) or any(k == 'maxsplit' and is_const(v, 1) for k, v in c.args[2])
            t = {
                ('partition', 0): ('before', 'first'), ('partition', 2): ('after', 'first'), ('partition', -1): ('after', 'first'),
                ('rpartition', 0): ('before', 'last'), ('rpartition', 2): ('after', 'last'), ('rpartition', -1): ('after', 'last'),
            }
            if b in ('split', 'rsplit'):
                r = b == 'rsplit'
                if one:
                    t = {(b, 0): ('before', 'last' if r else 'first'), (b, 1): ('after', 'last' if r else 'first'),
                         (b, -1): ('after', 'last' if r else 'first')}
                else:
                    t = {(b, 0): ('before', 'first'), (b, -1): ('after', 'last')}
                    return (*t.get((b, i), ('field', i)), vq.recv(c))
            if (b, i) in t:
                return (*t[b, i], vq.recv(c))
    if vq.mcall(n, 'join') and is_const(vq.recv(n), '_') and n.args[1]:
        x = n.args[1][0]
        if x.op == 'index' and x.args[1].op == 'slice' and vq.mcall(x.args[0], 'split') and is_const(x.args[0].args[1][0], '_'):
            lo, hi = (cval(y) if is_const(y) else None for y in x.args[1].args[:2])
            if (lo, hi) == (1, None):
                return 'after', 'first', vq.recv(x.args[0])
            if (lo, hi) in ((None, -1), (0, -1)):
                return 'before', 'last', vq.recv(x.args[0])
    return None


def source(n):
    """('ok' | 'bad' | None) for the source component of the task; what is wrong."""
    out = 'ok'
    for _c, x in leaves(n):
        if vq.mcall(x, 'replace') and len(x.args[1]) == 2 and is_const(x.args[1][0], '-LOC') and is_const(x.args[1][1], ''):
            x = vq.recv(x)
        elif vq.mcall(x, 'removesuffix') and is_const(x.args[1][0], '-LOC'):
            x = vq.recv(x)
        elif x.op == 'index' and x.args[1].op == 'slice' and x.args[1].args and is_const(x.args[1].args[1], -4):
            x = x.args[0]
        vs = [cut(y) for _d, y in leaves(x)]
        if not all(vs) or any(kind(v[2]) != 'task' for v in vs):
            return None
        if any(v[:2] != ('after', 'first') for v in vs):
            out = 'bad'
    return out


def info_part(n):
    """('target' | 'event' | other) of a target description."""
    c = cut(n)
    if c is None:
        vs = {info_part(x) for _d, x in leaves(n)} if n.op == 'ite' else set()
        return vs.pop() if len(vs) == 1 else None
    if kind(c[2]) != 'info':
        return None
    return {('before', 'last'): 'target', ('after', 'last'): 'event'}.get(c[:2], 'other')


def number(n):
    """Text whose damage state number this is."""
    if vq.xcall(n, 'int') and len(n.args[1]) == 1:
        x = n.args[1][0]
        if x.op == 'index' and x.args[1].op == 'slice':
            lo, hi = x.args[1].args[:2]
            if is_const(lo, 2) and is_const(hi, None):
                return x.args[0], True
            return x.args[0], False
        if vq.mcall(x, 'replace', 'removeprefix', 'lstrip', 'strip') and x.args[1] and is_const(x.args[1][0], 'DS'):
            return vq.recv(x), True
        c = x.args[0] if x.op == 'index' else None
        if c is not None and vq.mcall(c, 'split') and c.args[1] and is_const(c.args[1][0], 'DS') and is_const(x.args[1]) and cval(x.args[1]) in (1, -1):
            return vq.recv(c), True
        if c is not None and is_const(x.args[1]) and isinstance(cval(x.args[1]), int):
            return c, False
    return None


def unwhere(n):
    while True:
        if n.op == 'index' and is_const(n.args[1], 0) and vq.xcall(n.args[0], 'where', 'nonzero') and len(n.args[0].args[1]) == 1:
            n = n.args[0].args[1][0]
        elif vq.xcall(n, 'flatnonzero', 'asarray', 'array') and n.args[1]:
            n = n.args[1][0]
        elif vq.mcall(n, 'to_numpy', 'nonzero', 'astype') or vq.mcall(n, 'copy'):
            n = vq.recv(n)
        elif n.op == 'attr' and n.args[1] == 'values':
            n = n.args[0]
        else:
            return n


def selection(n):
    """Key of the columns of the damage state sample selected."""
    if n.op == 'index':
        b, k = n.args
        if b.op == 'attr' and b.args[1] == 'loc' and k.op == 'tuple' and len(k.args) == 2 and k.args[0].op == 'slice':
            b, k = b.args[0], k.args[1]
        if is_dss(b):
            return list(k.args) if k.op == 'tuple' else [k]
        inner = selection(b)
        if inner is not None:
            return inner + (list(k.args) if k.op == 'tuple' else [k])
    return None


def event(ctx, res, ip, e, skipped):
    rows, cols = e.node.args
    where = e.where()
    loc, known = None, True
    # rows
    for _c, r in leaves(rows):
        c = unwhere(r)
        if vq.mcall(c, 'any', 'all') and vq.recv(c).op == 'cmp' and any(selection(x) for x in vq.recv(c).args[1:3]) \
                and any(number(x) for x in vq.recv(c).args[1:3]):
            known = False
            res.bad('rows', 'highest damage state', where, f'{vq.bname(c)} of the damage states of the source triggers the event')
            continue
        if c.op != 'cmp':
            known = False
            skipped.append(f'rows {show(c, 3)}')
            continue
        a, b = c.args[1:3]
        if number(b) is None:
            a, b = b, a
        nb = number(b)
        if nb is None or kind(nb[0]) != 'event':
            skipped.append(f'rows: number {show(b, 3)}')
            if nb is not None and info_part(nb[0]):
                res.bad('rows', 'damage state of the source', where, 'the damage state of the target triggers the event')
        else:
            res.check('rows', nb[1], 'number of the damage state', where, 'the number of the damage state is not all that follows DS')
        a = unwhere(a)
        if not vq.mcall(a, 'max', 'min', 'any', 'mean', 'median', 'sum', 'mode', 'first', 'all', 'idxmax'):
            known = False
            skipped.append(f'rows: source {show(a, 3)}')
            continue
        res.check('rows', c.args[0] == '==', 'comparison', where, f'the damage states are compared with {c.args[0]}')
        ax = vq.arg(a, 'axis', 0)
        res.check('rows', vq.bname(a) == 'max', 'highest damage state', where, f'{vq.bname(a)} of the damage states of the source is used')
        if ax is None or is_const(ax):
            res.check('rows', ax is not None and cval(ax) in (1, 'columns'), 'for each realization', where, 'the damage states of all realizations are combined')
        sel = selection(vq.recv(a))
        if sel is None:
            known = False
            skipped.append(f'rows: selection {show(a, 3)}')
            continue
        s = source(sel[0])
        if s is None:
            if info_part(sel[0]) == 'target':
                res.bad('rows', 'source', where, 'the damage state of the target triggers the event')
            else:
                skipped.append(f'rows: source {show(sel[0], 4)}')
        else:
            res.check('rows', s == 'ok', 'source', where, 'the source component is not all that follows the number')
        if len(sel) > 1:
            loc = sel[1]
    # guards
    on = None
    for g, p, k in e.guards:
        if k in ('br', 'noret'):
            d = by_location(g)
            if d is not None:
                on = d == p
    if on is not None and known:
        res.check('location', (loc is not None) == on, 'rows' + (' with -LOC' if on else ''), where,
                  'locations are not matched although requested' if on else 'locations are matched although not requested')
    # columns
    for conds, c in leaves(cols):
        u = unwhere(c)
        if u.op == 'slice' or vq.xcall(u, 'arange', 'range'):
            res.bad('columns', 'all columns', where, 'all components are changed')
            continue
        atoms = conj(u)
        if atoms is None:
            skipped.append(f'columns {show(c, 3)}')
            continue
        for x in atoms:
            if x[0] == 'or':
                res.bad('columns', 'conditions', where, 'one of the conditions is enough')
            elif x[0] not in ('cmp', 'loc'):
                res.bad('columns', 'conditions', where, f'the columns are selected by {x[0]}')
        everything = None
        for g, p in (*conds, *((g, p) for g, p, k in e.guards if k in ('br', 'noret'))):
            x = is_all(g)
            if x is not None:
                everything = x == p
        if everything is None:
            skipped.append('columns: ALL')
            continue
        what = 'all components' if everything else 'target'
        lv = [x for x in atoms if x[0] == 'loc']
        cm = [x for x in atoms if x[0] == 'cmp']
        if len(lv) + len(cm) != len(atoms):
            skipped.append(f'columns {show(c, 3)}')
            continue
        if everything:
            s = [source(x[2]) or ('bad' if info_part(x[2]) else None) for x in cm]
            if not (cm and None in s):
                res.check('columns', len(cm) == 1 and cm[0][1] == '!=' and (s[0] == 'ok' or source(cm[0][2]) is not None), what, where, 'the source component is not left out')
            else:
                skipped.append('columns: source')
        else:
            t = [info_part(x[2]) for x in cm]
            if None in t and any(source(x[2]) for x in cm):
                res.bad('columns', what, where, 'the source is changed instead of the target')
            elif None in t:
                skipped.append('columns: target')
            else:
                res.check('columns', t == ['target'] and cm[0][1] == '==', what, where,
                          'the columns are not those of the target component')
        if (loc is not None or lv) and known:
            res.check('location', loc is not None and len(lv) == 1 and lv[0][1] == '==' and lv[0][2] is loc, f'{what}: location', where,
                      'the components of another location are changed')
    if loc is not None:
        if loc.op == 'elem':
            it = loc.args[0]
            while vq.xcall(it, 'set', 'sorted', 'list', 'unique') and it.args[1] or vq.mcall(it, 'unique', 'tolist', 'to_list'):
                it = it.args[1][0] if vq.xcall(it, 'set', 'sorted', 'list', 'unique') else vq.recv(it)
            if vq.mcall(it, 'get_level_values') and it.args[1]:
                k = it.args[1][0]
                # columns of the source only have the remaining levels
                good = is_const(k) and cval(k) in ('loc', 1)
                res.check('location', good, 'locations of the source', where, f'the source is matched by {show(k, 1)}')
    # state
    for conds, v in leaves(e.value):
        nb = number(v)
        if nb is not None:
            res.check('state', info_part(nb[0]) == 'event' and nb[1] if info_part(nb[0]) or kind(nb[0]) else True, 'damage state', where,
                      'the damage state assigned is not the one of the target')
            continue
        if v.op in ('mu', 'unbound', 'phi'):
            res.bad('state', 'damage state', where, 'the damage state of another target is assigned')
            continue
        if is_const(v) or v.op == 'unop' and v.args[0] == '-' and is_const(v.args[1]):
            x = cval(v) if is_const(v) else -cval(v.args[1])
            na = None
            for g, p in conds:
                if g.op == 'cmp' and g.args[0] in ('==', '!=') and any(is_const(y, 'NA') for y in g.args[1:3]):
                    na = p == (g.args[0] == '==')
                elif vq.mcall(g, 'startswith') and na is None:
                    na = not p
            if na is not None:
                res.check('state', x == -1 and na, 'NA', where, 'NA does not clear the damage state')
            continue
        if vq.xcall(v, 'float') or is_const(v):
            continue
        if vq.xcall(v, 'maximum', 'minimum', 'fmax', 'fmin', 'where') and any(number(x) for x in walk(v)):
            res.bad('state', 'damage state', where, 'the damage state assigned depends on the previous one')
            continue
        skipped.append(f'state {show(v, 3)}')
    # all of them
    for lp in e.loops:
        l = lvl(lp.iter) if lp.iter is not None else None
        if l is not None:
            res.check('every', not lp.breaks, f'{("tasks", "events", "targets")[min(l, 2)]}', where, 'the rest is skipped')
            if lp.node is not None and returns(lp.node):
                res.bad('every', f'{("tasks", "events", "targets")[min(l, 2)]}', where, 'the rest is skipped')
            it = lp.iter
            if it.op == 'index' and it.args[1].op == 'slice':
                res.bad('every', 'tasks', where, 'some are left out')
    for g, p, k in e.guards:
        if k in ('br', 'noret') and g.op == 'cmp' and any(number(x) for x in g.args[1:3]) and any(is_const(x) for x in g.args[1:3]):
            res.bad('every', 'damage states', where, 'some damage states do not trigger the event')
        if k in ('br', 'noret') and any(is_dss(x) for x in walk(g)) and by_location(g) is None and is_all(g) is None:
            absent(res, e, g, p, where, skipped)


def returns(loop):
    todo = list(loop.body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Return):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))
    return False


def absent(res, e, g, p, where, skipped):
    """Conditions for performing the event: only that source and target exist."""
    for x in walk(g):
        if x.op == 'cmp' and x.args[0] in ('in', 'not in') and vq.mcall(x.args[2], 'get_level_values'):
            k = x.args[2].args[1][0]
            if is_const(k) and cval(k) not in ('cmp', 0):
                res.bad('every', 'components looked up', where, 'components are looked up among other labels')
            else:
                res.ok('every', 'components looked up')


def by_location(g):
    """True when the condition holds for tasks with -LOC."""
    if g.op == 'not':
        r = by_location(g.args[0])
        return None if r is None else not r
    if g.op == 'ite' and all(is_const(x) and isinstance(cval(x), bool) for x in g.args[1:3]) and cval(g.args[1]) != cval(g.args[2]):
        r = by_location(g.args[0])
        return None if r is None else r == cval(g.args[1])
    if vq.mcall(g, 'endswith') and g.args[1] and is_const(g.args[1][0]) and 'LOC' in str(cval(g.args[1][0])):
        return True
    if g.op == 'cmp' and g.args[0] in ('in', 'not in') and is_const(g.args[1]) and 'LOC' in str(cval(g.args[1])):
        return g.args[0] == 'in'
    return None


def is_all(g):
    if g.op == 'not':
        r = is_all(g.args[0])
        return None if r is None else not r
    if g.op == 'cmp' and g.args[0] in ('==', '!=') and any(is_const(x, 'ALL') for x in g.args[1:3]):
        return g.args[0] == '=='
    return None


def conj(n):
    """(level, operator, value) of each comparison of column labels, all of which must hold."""
    if vq.xcall(n, 'logical_and') and len(n.args[1]) == 2:
        a, b = (conj(unwhere(x)) for x in n.args[1])
        return None if a is None or b is None else a + b
    if n.op == 'binop' and n.args[0] in ('&', '*'):
        a, b = (conj(unwhere(x)) for x in n.args[1:3])
        return None if a is None or b is None else a + b
    if n.op == 'binop' and n.args[0] == '|' or vq.xcall(n, 'logical_or'):
        return [('or', None, None)]
    if n.op == 'cmp':
        a, b = n.args[1:3]
        if not vq.mcall(a, 'get_level_values'):
            a, b = b, a
        if vq.mcall(a, 'get_level_values') and a.args[1] and is_const(a.args[1][0]):
            k = cval(a.args[1][0])
            return [({0: 'cmp', 1: 'loc'}.get(k, k), n.args[0], b)]
    return None


# -- order of the tasks -----------------------------------------------------
def order(ctx, res, ip, skipped):
    its = {}
    for e in ip.events:
        for g, _p, k in e.guards:
            if k == 'loop' and g.op == 'iter' and lvl(g.args[0]) == 0:
                its.setdefault(g.args[0], e)
    done = False
    for it, e in its.items():
        if not any(x.kind == 'store_index' and x.target is not None and any(is_dss(y) for y in walk(x.target))
                   and any(g.op == 'iter' and g.args[0] is it for g, _p, k in x.guards if k == 'loop') for x in ip.events):
            continue
        s = outermost_sort(it)
        if s is None:
            res.bad('order', 'tasks', e.where(), 'the tasks are not sorted')
            done = True
            continue
        kw = dict(s.args[2])
        rev = kw.get('reverse')
        if rev is not None and not (is_const(rev) and not cval(rev)):
            if is_const(rev):
                res.bad('order', 'tasks', e.where(), 'the tasks are performed in reverse')
                done = True
            continue
        v = numeric_key(ctx, ip, kw.get('key'))
        if v is None:
            skipped.append('order of the tasks')
            done = True
            res.ok('order', 'not judged')
            continue
        done = True
        res.check('order', v, 'tasks', e.where(), 'the tasks are sorted as text, 10 comes before 2')
    if not done:
        skipped.append('tasks')
        res.ok('order', 'not judged')


def outermost_sort(n):
    while True:
        if vq.xcall(n, 'sorted'):
            return n
        if vq.mcall(n, 'keys', 'items', 'values', 'copy'):
            n = vq.recv(n)
        elif vq.xcall(n, 'list', 'tuple', 'dict', 'iter', 'enumerate') and n.args[1]:
            n = n.args[1][0]
        elif n.op == 'dcomp' and n.args[2]:
            n = n.args[2][0]
        elif n.op == 'comp' and n.args[2]:
            n = n.args[2][0]
        else:
            return None


def numeric_key(ctx, ip, key):
    """Whether a sort key is the number in front of the task (None: not known)."""
    if key is None:
        return False
    f = None
    if key.op == 'fn':
        f = ctx.repo.funcs.get(key.args[0])
    elif key.op in ('closure', 'lambda') and key in ip.closures:
        f = ip.closures[key][0]
    elif key.op in ('bound', 'method'):
        f = next((ctx.repo.funcs.get(a) for a in key.args if isinstance(a, str) and a in ctx.repo.funcs), None)
    elif key.op == 'ext':
        return False if key.args[0] in ('builtins.str', 'builtins.len') else None
    if f is None:
        return None
    node = f.node
    env = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            env.setdefault(x.targets[0].id, []).append(x.value)
    rets = [node.body] if isinstance(node, ast.Lambda) else [x.value for x in ast.walk(node) if isinstance(x, ast.Return) and x.value is not None]
    params = {a.arg for a in node.args.args}

    def judge(v, depth=0):
        if depth > 6:
            return None
        if isinstance(v, ast.Tuple) and v.elts:
            for x in v.elts:
                j = judge(x, depth + 1)
                if j != 'const':
                    return j
            return 'const'
        if isinstance(v, ast.IfExp):
            js = {judge(v.body, depth + 1), judge(v.orelse, depth + 1)} - {'const'}
            return True if True in js else (js.pop() if js else 'const')
        if isinstance(v, ast.Constant) or isinstance(v, ast.Attribute) and v.attr in ('inf', 'maxsize'):
            return 'const'
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('int', 'float'):
            if v.func.id == 'float' and v.args and isinstance(v.args[0], ast.Constant):
                return 'const'
            return front(v.args[0], depth + 1) if v.args else None
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub):
            return False if judge(v.operand, depth + 1) is True else 'const'
        if isinstance(v, ast.Name):
            if v.id in env:
                js = {judge(x, depth + 1) for x in env[v.id]} - {'const'}
                return True if js == {True} else (False if js == {False} else None)
            return False if v.id in params else None
        if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Call) and isinstance(v.value.func, ast.Attribute) and v.value.func.attr in ('split', 'partition'):
            return False
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('split', 'lower', 'upper', 'partition'):
            return False
        return None

    def front(v, depth):
        """The text turned into a number is what comes before the first '_'."""
        if depth > 6:
            return None
        if isinstance(v, ast.Name) and v.id in env and len(env[v.id]) == 1:
            return front(env[v.id][0], depth + 1)
        if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Call) and isinstance(v.value.func, ast.Attribute) and v.value.func.attr in ('split', 'partition', 'rsplit', 'rpartition'):
            if isinstance(v.slice, ast.Constant):
                return v.slice.value == 0
            return None
        if isinstance(v, ast.Call):
            return True
        return None

    js = {judge(r) for r in rets}
    if js <= {True, 'const'} and True in js:
        return True
    return False if False in js else None
