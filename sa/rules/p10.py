"""P10: text from input files is never executed as code."""

from __future__ import annotations

import ast
import re

try:
    from re import _parser as sre_parse
except ImportError:  # pragma: no cover
    import sre_parse

from .. import alias, effects
from ..flow import callee, is_const, cval, show, walk

EXPLANATION = (
    'Every reference to a code-executing or unpickling facility in the package is '
    'enumerated from the syntax tree with resolved names; every formula handed to the '
    'expression engine is traced back in the value-flow graph and must be dominated by '
    'an anchored character whitelist (decided on the parsed regular expression) applied '
    'to the same text; dynamically loaded modules may only come from a path argument.'
)

BANNED = {
    'builtins.eval', 'builtins.exec', 'builtins.compile', 'os.system', 'os.popen', 'os.execv',
    'os.execl', 'os.execvp', 'os.spawnl', 'os.spawnv', 'pickle.load', 'pickle.loads',
    'pickle.Unpickler', 'marshal.load', 'marshal.loads', 'shelve.open', 'joblib.load',
    'pandas.read_pickle', 'pandas.eval', 'yaml.load', 'yaml.unsafe_load', 'yaml.full_load',
    'builtins.__import__', 'code.interact', 'code.InteractiveInterpreter', 'runpy.run_path',
    'runpy.run_module', 'dill.load', 'dill.loads', 'cloudpickle.load', 'cloudpickle.loads',
    'sympy.sympify', 'sympy.parsing.sympy_parser.parse_expr', 'numpy.fromfunction_eval',
    'pandas.HDFStore', 'pandas.read_hdf', 'ast.compile', 'types.FunctionType',
}
BANNED_PREFIX = ('subprocess.', 'ctypes.', 'pty.', 'dill.', 'cloudpickle.')
DYN_IMPORT = {'importlib.import_module', 'importlib.util.spec_from_file_location', 'importlib.__import__',
              'importlib.machinery.SourceFileLoader', 'imp.load_source'}
ENGINE = {'numexpr.evaluate', 'numexpr.NumExpr', 'numexpr.validate', 'numexpr.re_evaluate'}
ALLOWED = set('0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ^+-*/() \t\n\r\f\v')


def class_chars(pattern):
    """Characters a whole-string whitelist pattern admits, or None."""
    try:
        p = sre_parse.parse(pattern)
    except re.error:
        return None
    if p.state.flags & (re.IGNORECASE | re.MULTILINE | re.VERBOSE) or '(?' in pattern:
        return None
    items = list(p)
    start = bool(items) and str(items[0][0]) == 'AT' and 'BEGINNING' in str(items[0][1])
    end = bool(items) and str(items[-1][0]) == 'AT' and 'END' in str(items[-1][1])
    if start:
        items = items[1:]
    if end and items:
        items = items[:-1]
    chars = set()
    for op, av in items:
        o = str(op)
        if o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            for op2, av2 in av[2]:
                c = one(op2, av2)
                if c is None:
                    return None
                chars |= c
        else:
            c = one(op, av)
            if c is None:
                return None
            chars |= c
    return chars, start, end


def one(op, av):
    o = str(op)
    if o == 'LITERAL':
        return {chr(av)}
    if o != 'IN':
        return None
    out = set()
    for op2, av2 in av:
        o2 = str(op2)
        if o2 == 'LITERAL':
            out.add(chr(av2))
        elif o2 == 'RANGE':
            out |= {chr(i) for i in range(av2[0], av2[1] + 1)} if av2[1] < 4096 else {'\0'}
        elif o2 == 'CATEGORY' and 'SPACE' in str(av2) and 'NOT' not in str(av2):
            out |= set(' \t\n\r\f\v')
        elif o2 == 'CATEGORY' and 'DIGIT' in str(av2) and 'NOT' not in str(av2):
            out |= set('0123456789')
        else:
            return None
    return out


def pattern_of(ip, n):
    """Regex text of a compiled-pattern or string node."""
    if is_const(n) and isinstance(cval(n), str):
        return cval(n)
    if n.op == 'glob':
        m, ex = ip.glob_expr(n)
        if isinstance(ex, ast.Constant) and isinstance(ex.value, str):
            return ex.value
        if isinstance(ex, ast.Call) and ex.args and ip.repo.resolve_expr(m, ex.func) == 're.compile':
            if len(ex.args) == 1 and isinstance(ex.args[0], ast.Constant):
                return ex.args[0].value
    if n.op == 'call' and callee(n) == ('ext', 're.compile') and len(n.args[1]) == 1 and not n.args[2]:
        return pattern_of(ip, n.args[1][0])
    return None


def whitelists(ip, cond, pol, subject):
    """The fact (cond is pol) implies ``subject`` only has whitelisted characters."""
    if cond.op == 'not':
        return whitelists(ip, cond.args[0], not pol, subject)
    if cond.op == 'cmp' and cond.args[0] in ('is', 'is not', '==', '!=') and is_const(cond.args[2], None):
        return whitelists(ip, cond.args[1], pol == (cond.args[0] in ('is not', '!=')), subject)
    if cond.op == 'or' and not pol:
        return any(whitelists(ip, x, False, subject) for x in cond.args)
    if cond.op == 'and' and pol:
        return any(whitelists(ip, x, True, subject) for x in cond.args)
    if cond.op != 'call':
        return False
    kind, name = callee(cond)
    args = cond.args[1]
    if name == 'builtins.bool' and args:
        return whitelists(ip, args[0], pol, subject)
    if kind == 'ext' and name == 'builtins.all' and pol and args and args[0].op == 'comp':
        c = args[0]
        t = c.args[1]
        if t.op == 'cmp' and t.args[0] == 'in' and t.args[1].op == 'elem' and t.args[1].args[0] is subject:
            return is_const(t.args[2]) and isinstance(cval(t.args[2]), str) and set(cval(t.args[2])) <= ALLOWED
        return False
    how = pat = subj = None
    if kind == 'method' and name in ('match', 'fullmatch', 'search') and len(args) == 1:
        how, pat, subj = name, pattern_of(ip, cond.args[0].args[0]), args[0]
    elif kind == 'ext' and name in ('re.match', 're.fullmatch', 're.search') and len(args) == 2:
        how, pat, subj = name[3:], pattern_of(ip, args[0]), args[1]
    if pat is None or subj is not subject:
        return False
    if not pol:
        # "no forbidden character found": [^...]
        if how != 'search':
            return False
        try:
            p = list(sre_parse.parse(pat))
        except re.error:
            return False
        if len(p) == 1 and str(p[0][0]) == 'IN' and str(p[0][1][0][0]) == 'NEGATE':
            c = one(p[0][0], p[0][1][1:])
            return c is not None and c <= ALLOWED
        if len(p) == 1 and str(p[0][0]) == 'NOT_LITERAL':
            return True
        return False
    cc = class_chars(pat)
    if cc is None:
        return False
    chars, start, end = cc
    anchored = how == 'fullmatch' or (end and (how == 'match' or start))
    return anchored and chars <= ALLOWED


def formula_source(n):
    """Strip operations that only introduce whitelisted characters."""
    while True:
        if n.op == 'call':
            kind, name = callee(n)
            if kind == 'method' and name == 'replace' and len(n.args[1]) == 2 and all(
                is_const(a) and isinstance(cval(a), str) for a in n.args[1]
            ) and set(cval(n.args[1][1])) <= ALLOWED:
                n = n.args[0].args[0]
                continue
            if kind == 'method' and name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip') and not n.args[1]:
                n = n.args[0].args[0]
                continue
            if kind == 'ext' and name == 'builtins.str' and len(n.args[1]) == 1:
                n = n.args[1][0]
                continue
        return n


def safe_formula(ip, e, n):
    if is_const(n):
        return True
    if n.op == 'ite':
        return safe_formula(ip, e, n.args[1]) and safe_formula(ip, e, n.args[2])
    cands = {n}
    cur = n
    for _ in range(6):
        nxt = formula_source(cur)
        if nxt is cur:
            break
        cands.add(nxt)
        cur = nxt
    # every intermediate form is acceptable as the subject of the whitelist
    x = n
    while x.op == 'call' and callee(x)[0] == 'method':
        nx = x.args[0].args[0]
        if formula_source(x) is not x:
            cands.add(nx)
        x = nx
    return any(whitelists(ip, g, p, s) for g, p, k in e.guards if k in ('br', 'noraise', 'noret') for s in cands)


def run(ctx, res):
    repo = ctx.repo
    res.rule('exec', 'no module refers to a code-executing or unpickling facility', 15)
    res.rule('frame-eval', 'DataFrame.eval/query only receive literal text', 0)
    res.rule('formula', 'every formula reaching the expression engine passed the whitelist', 2)
    res.rule('import', 'modules are only loaded from a path argument of the loader', 0)
    res.rule('np-load', 'array files are loaded without unpickling', 0)
    engine_sites = set()
    import_sites = set()
    for m in repo.modules.values():
        bad = 0
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = repo.resolve_expr(m, n)
                if not d:
                    continue
                if d in BANNED or d.startswith(BANNED_PREFIX):
                    bad += 1
                    res.bad('exec', f'{m.name}:{d}', f'{m.relpath}:{n.lineno}', f'{d} can execute text from an input file')
                if d in ENGINE:
                    engine_sites.add(f'{m.relpath}:{n.lineno}')
                if d in DYN_IMPORT:
                    import_sites.add(f'{m.relpath}:{n.lineno}')
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('eval', 'query') and n.args:
                    d = repo.resolve_expr(m, n.func)
                    if d is None:
                        res.check('frame-eval', isinstance(n.args[0], ast.Constant), f'{m.name}:{n.func.attr}',
                                  f'{m.relpath}:{n.lineno}', 'evaluates a computed expression')
                d = repo.resolve_expr(m, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                if d == 'numpy.load':
                    kw = {k.arg: k.value for k in n.keywords}
                    v = kw.get('allow_pickle')
                    res.check('np-load', v is None or (isinstance(v, ast.Constant) and v.value is False),
                              f'{m.name}:numpy.load', f'{m.relpath}:{n.lineno}', 'unpickles a file')
        if not bad:
            res.ok('exec', m.name)
    covered, icovered = set(), set()
    verdict = {}
    for f, ip in effects.public_runs(ctx):
        for e in ip.events:
            if e.kind != 'call' or e.node is None:
                continue
            kind, name = callee(e.node)
            if kind == 'ext' and name in ENGINE:
                covered.add(e.where())
                if name == 'numexpr.re_evaluate':
                    ok = True
                else:
                    args = e.node.args[1]
                    kws = dict(x for x in e.node.args[2] if isinstance(x[0], str))
                    ex = args[0] if args else kws.get('ex')
                    ok = ex is not None and safe_formula(ip, e, ex)
                k = (e.func.qual, name, e.where())
                verdict[k] = verdict.get(k, True) and ok
            if kind == 'ext' and name in DYN_IMPORT and e.func is f:
                icovered.add(e.where())
                srcs = [a for a in (*e.node.args[1], *[v for _k, v in e.node.args[2] if v is not None])]
                ok = True
                why = ''
                roots = set()
                for a in srcs[:2]:
                    for x in walk(a, ip):
                        if x.op == 'param':
                            roots.add(x.args[1])
                        if x.op == 'index' or (x.op == 'call' and callee(x)[1] in ('get', 'json.load', 'read', 'json.loads')):
                            if any(y.op == 'param' and 'config' in str(y.args[1]) for y in walk(x, ip)) or callee(x)[1] in ('json.load', 'json.loads', 'read'):
                                ok = False
                                why = show(x, 3)
                res.check('import', ok, f'{e.func.qual}:{name}', e.where(),
                          f'module location derives from file content ({why}) in {f.qual}')
    for s in sorted(import_sites - icovered):
        res.bad('import', f'hidden:{s.split(":")[0]}', s, 'a module is loaded outside a public loader')
    for (q, name, w), ok in sorted(verdict.items()):
        res.check('formula', ok, f'{q}:{name}', w, 'a formula from a parameter table reaches the expression engine unchecked')
    for s in sorted(engine_sites - covered):
        res.bad('formula', f'unreached:{s.split(":")[0]}', s, 'an expression engine call that no public entry reaches with checked text')
