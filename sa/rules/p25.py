"""P25: a failing step is never silently skipped."""

from __future__ import annotations

import ast

from .. import alias

EXPLANATION = (
    'Exception-flow analysis over every try statement of the package: handlers that may '
    'complete without raising are enumerated; they may not catch everything, and the code '
    'they protect may only convert, look up, read or factorise a value - no call that '
    'writes, mutates a model, draws random numbers or runs a calculation (repository '
    'callees are followed and their effects computed). finally blocks may not discard an '
    'exception and worker errors may not be turned into results.'
)

CATCH_ALL = {'builtins.Exception', 'builtins.BaseException', None}
WRITE_METHODS = {
    'to_csv', 'to_json', 'to_hdf', 'to_parquet', 'to_pickle', 'write', 'write_text', 'write_bytes',
    'writelines', 'unlink', 'rmdir', 'mkdir', 'rename', 'replace_file', 'touch', 'dump', 'savetxt',
    'save', 'to_excel', 'symlink_to', 'hardlink_to', 'chmod', 'to_feather',
}
WRITE_FUNCS = {
    'json.dump', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.mkdir', 'os.makedirs',
    'os.rmdir', 'shutil.rmtree', 'shutil.move', 'shutil.copy', 'shutil.copy2', 'shutil.copytree',
    'shutil.copyfile', 'numpy.save', 'numpy.savetxt', 'joblib.dump', 'pickle.dump',
}
COMPUTING = (
    'pelicun.uq.', 'pelicun.model.', 'pelicun.assessment.', 'pelicun.tools.regional_sim.',
    'pelicun.tools.NNR.', 'pelicun.tools.DL_calculation.', 'pelicun.auto.',
)
# the background check for newer data is advisory by design (see P21)
ADVISORY = {'pelicun.tools.dlml.check_dlml_version'}
# pure value functions of repo-external modules never count; method names that
# several libraries share with repo classes are resolved through the repo.
BENIGN = {'get', 'items', 'keys', 'values', 'split', 'strip', 'copy', 'json', 'raise_for_status', 'msg', 'warning', 'info', 'debug', 'div'}


def terminates(stmts):
    """Every path through ``stmts`` ends in raise (or a non-zero exit)."""
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and terminates(s.body) and terminates(s.orelse):
            return True
        if isinstance(s, ast.With) and terminates(s.body):
            return True
        if isinstance(s, ast.Try):
            if terminates(s.finalbody):
                return True
            if terminates(s.body) and all(terminates(h.body) for h in s.handlers):
                return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            t = ast.unparse(f)
            if t in ('sys.exit', 'exit', 'os._exit') and s.value.args:
                a = s.value.args[0]
                return not (isinstance(a, ast.Constant) and a.value in (0, None, False))
        if isinstance(s, (ast.If, ast.For, ast.While)) and escapes(s):
            return False
    return False


def escapes(s):
    return any(isinstance(n, (ast.Return, ast.Continue, ast.Break)) for n in ast.walk(s))


def own_nodes(node):
    """Walk without entering nested function bodies."""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def opens_for_write(call):
    mode = None
    args = call.args
    if isinstance(call.func, ast.Name):
        mode = args[1] if len(args) > 1 else None
    elif call.func.attr == 'open':
        mode = args[0] if args else None
    for k in call.keywords:
        if k.arg == 'mode':
            mode = k.value
    if mode is None:
        return False
    if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
        return any(c in mode.value for c in 'wax+')
    return True


class Effects:
    """Which repository functions have effects worth protecting."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.repo = ctx.repo
        self.memo = {}
        self.by_name = {}
        for f in self.repo.funcs.values():
            if f.cls is not None and f.parent is None:
                self.by_name.setdefault(f.name, []).append(f)

    def func(self, f):
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = None
        r = None
        for n in ast.walk(f.node):
            r = self.node(f.module, n, f)
            if r:
                break
        self.memo[f.qual] = r
        return r

    def node(self, m, n, f=None):
        """Description of an effect caused by a single node, or None."""
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    if f is None or f.name != '__init__':
                        return f'assignment to self.{t.attr}'
        if not isinstance(n, ast.Call):
            return None
        if isinstance(n.func, (ast.Name, ast.Attribute)):
            d = self.repo.resolve_expr(m, n.func)
            if d in WRITE_FUNCS:
                return d
            if d and d in self.repo.funcs:
                if d in ADVISORY:
                    return None
                r = self.func(self.repo.funcs[d])
                if r is None and d.startswith(COMPUTING) and any(
                    isinstance(x, ast.Call) for b in self.repo.funcs[d].node.body for x in own_nodes(b)
                    if not isinstance(b, (ast.FunctionDef, ast.Lambda))
                ):
                    r = 'a calculation'
                return f'{d} ({r})' if r else None
            if d and d in self.repo.classes:
                k = self.repo.classes[d]
                if 'Error' in k.name or 'Warning' in k.name:
                    return None
                return f'construction of {d}'
            if d and (d.startswith('numpy.random.') or d in ('joblib.Parallel',)):
                return d
            if d == 'builtins.open' and opens_for_write(n):
                return 'open for writing'
        if isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if a in WRITE_METHODS:
                return f'.{a}()'
            if a == 'open' and opens_for_write(n):
                return 'open for writing'
            if a not in BENIGN and self.repo.resolve_expr(m, n.func) is None:
                for g in self.by_name.get(a, []):
                    r = self.func(g)
                    if r:
                        return f'{g.qual} ({r})'
        elif isinstance(n.func, ast.Call):
            return self.node(m, n.func, f)
        return None


def run(ctx, res):
    repo = ctx.repo
    eff = Effects(ctx)
    res.rule('narrow', 'a handler that continues names the errors it expects', 5)
    res.rule('scope', 'code protected by a continuing handler only computes or reads a value', 5)
    res.rule('finally', 'a finally block does not discard an exception', 0)
    res.rule('suppress', 'no computation runs inside a suppress() block', 0)
    total = 0
    for m in repo.modules.values():
        owner = {}
        for f in repo.funcs.values():
            if f.module is m:
                for n in ast.walk(f.node):
                    owner[n] = f.qual if len(f.qual) > len(owner.get(n, '')) else owner[n]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.With):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and repo.resolve_expr(m, c.func) == 'contextlib.suppress':
                        names = [repo.resolve_expr(m, a) for a in c.args]
                        q = owner.get(n, m.name)
                        e = first_effect(eff, m, n.body)
                        wide = CATCH_ALL & set(names)
                        res.check('suppress', not e and not wide, f'{q}:suppress', f'{m.relpath}:{n.lineno}',
                                  f'errors of {e or "the block"} are discarded')
            if not isinstance(n, ast.Try):
                continue
            q = owner.get(n, m.name)
            for s in n.finalbody:
                for x in own_nodes(s):
                    if isinstance(x, ast.Return):
                        res.bad('finally', f'{q}:finally', f'{m.relpath}:{x.lineno}', 'return in finally discards the exception')
            for h in n.handlers:
                total += 1
                if terminates(h.body):
                    continue
                types = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
                names = [repo.resolve_expr(m, t) if t is not None else None for t in types]
                label = ast.unparse(h.type) if h.type is not None else 'everything'
                res.check(
                    'narrow', not (CATCH_ALL & set(names)), f'{q}:except {label}',
                    f'{m.relpath}:{h.lineno}', f'the handler catches {label} and continues',
                )
                e = first_effect(eff, m, n.body)
                res.check(
                    'scope', e is None, f'{q}:except {label}', f'{m.relpath}:{h.lineno}',
                    f'a failure of {e} is caught ({label}) and the run continues as if it had succeeded',
                )
    res.analysed['handlers'] = total


def first_effect(eff, m, body):
    for s in body:
        for x in own_nodes(s):
            r = eff.node(m, x)
            if r:
                return r
    return None
