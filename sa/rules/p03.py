"""P03: no state is carried from one analysis to the next inside a process."""

from __future__ import annotations

import ast

from .. import effects
from ..flow import show
from ..repo import Func

EXPLANATION = (
    'Effect analysis of every public entry point: each store, in-place operator, '
    'mutating call or rebinding reachable from the entry (repository calls inlined) is '
    'traced through references, views and shallow copies to its origin; an origin that '
    'is a module-level table, a class-level attribute or a default argument value is a '
    'violation, as is a memoising decorator on a reachable function.'
)

# The log registry exists so the exception hook can find every open log.
ALLOWED = {'pelicun.base.LoggerRegistry._loggers'}
MEMO = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}


def run(ctx, res):
    res.rule('shared-write', 'no public entry writes to module-, class- or default-argument storage', 100)
    res.rule('memo', 'no reachable function memoises results across calls', 100)
    res.rule('import-write', 'module-level code of one module does not modify tables of another', 10)
    reached = set()
    for f, ip in effects.public_runs(ctx):
        bad = []
        for m, root, path in effects.rooted(ctx, ip):
            if root.op == 'default' or (root.op == 'glob' and str(root.args[0]) not in ALLOWED):
                if root.op == 'glob' and ip.type_cls(root) is not None and not path:
                    pass
                bad.append((m, root))
        for e in ip.events:
            if e.kind == 'store_global' and not any(x[0].event is e for x in bad):
                bad.append((type('M', (), {'event': e, 'how': 'global rebinding'})(), e.target or e.node))
            if e.kind == 'store_attr' and e.target is not None and e.target.op in ('clsref', 'fn', 'modref'):
                bad.append((type('M', (), {'event': e, 'how': 'attribute assignment'})(), e.target))
        if bad:
            for m, root in bad:
                res.bad(
                    'shared-write',
                    f'{m.event.func.qual}:{show(root)}:{m.how}',
                    m.event.where(),
                    f'{m.how} changes `{show(root)}`, which outlives the call and is shared by '
                    f'every later run (reached from {f.qual})',
                )
        else:
            res.ok('shared-write', f.qual)
        reached |= {x for x in ip.stats['funcs']}
    for q in sorted(str(x.qual) if isinstance(x, Func) else str(x) for x in reached):
        f = ctx.repo.funcs.get(q)
        if f is None or not hasattr(f.node, 'decorator_list'):
            continue
        memo = None
        for d in f.node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            if ctx.repo.resolve_expr(f.module, t) in MEMO - {'functools.cached_property'}:
                memo = d
        res.check(
            'memo', memo is None, q, f'{f.module.relpath}:{f.node.lineno}',
            'memoised function keeps results (and shared mutable return values) across runs',
        )
    for m in ctx.repo.modules.values():
        bad = None
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Subscript):
                            d = ctx.repo.resolve_expr(m, t.value)
                            if d and d.startswith('pelicun.') and not d.startswith(m.name + '.'):
                                bad = n
        res.check('import-write', bad is None, m.name, m.relpath, 'module-level code modifies another module')
