"""P24: process-wide settings are left as they were found."""

from __future__ import annotations

import ast

from .. import effects
from ..flow import callee, show

EXPLANATION = (
    'Effect analysis of every public entry point: calls that change process-wide state '
    '(working directory, environment, numpy/pandas/warnings/logging settings, global '
    'random generators, signal handlers, recursion limit ...) and stores into objects of '
    'other libraries are enumerated; a store is accepted only as a patch whose original '
    'value is put back in a finally block that nothing can bypass.'
)

SETTERS = {
    'os.chdir', 'os.fchdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.nice', 'os.setuid',
    'locale.setlocale', 'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions',
    'numpy.random.seed', 'numpy.random.set_state', 'random.seed', 'random.setstate',
    'pandas.set_option', 'pandas.reset_option', 'warnings.filterwarnings', 'warnings.simplefilter',
    'warnings.resetwarnings', 'signal.signal', 'sys.setrecursionlimit', 'socket.setdefaulttimeout',
    'multiprocessing.set_start_method', 'logging.basicConfig', 'logging.disable', 'gc.disable',
    'gc.enable', 'decimal.setcontext', 'time.tzset', 'sys.settrace', 'sys.setprofile',
    'faulthandler.enable', 'numexpr.set_num_threads', 'numexpr.set_vml_num_threads',
    'logging.captureWarnings', 'threading.stack_size', 'resource.setrlimit', 'tempfile.tempdir',
    'numpy.random.shuffle', 'random.shuffle', 'os.environ.update', 'os.environ.setdefault',
    'os.environ.pop', 'os.environ.clear', 'sys.path.append', 'sys.path.insert', 'sys.path.extend',
    'sys.path.remove', 'sys.modules.pop', 'matplotlib.use',
}
# numpy.random.<f>: everything but the explicit-generator API shares global state
RNG_OK = {'default_rng', 'Generator', 'PCG64', 'SeedSequence', 'RandomState', 'BitGenerator'}
MUT_METHODS = {'update', 'setdefault', 'pop', 'clear', 'append', 'insert', 'extend', 'remove'}
SCOPED = {  # setter -> context manager that undoes it
    'warnings.filterwarnings': 'warnings.catch_warnings',
    'warnings.simplefilter': 'warnings.catch_warnings',
    'numpy.seterr': 'numpy.errstate',
    'pandas.set_option': 'pandas.option_context',
    'numpy.set_printoptions': 'numpy.printoptions',
    'decimal.setcontext': 'decimal.localcontext',
}
# Functions whose documented purpose is to change a setting.
PURPOSE = {
    ('pelicun.base.control_warnings', 'warnings.filterwarnings'),
    # user-supplied auto-population scripts import their siblings
    ('pelicun.auto.auto_populate', 'sys.path.insert'),
}


def ext_root(n):
    while n is not None and n.op in ('attr', 'index'):
        n = n.args[0]
    return n if n is not None and n.op == 'ext' else None


def setter_name(e):
    kind, name = callee(e.node)
    if kind == 'ext':
        if name in SETTERS:
            return name
        if name.startswith('numpy.random.') and name.split('.')[2] not in RNG_OK:
            return name
        if name.startswith('random.') and name not in ('random.Random', 'random.SystemRandom'):
            return name
        base, _, last = name.rpartition('.')
        if base in ('os.environ', 'sys.path', 'sys.modules', 'warnings.filters') and last in MUT_METHODS:
            return name
    if kind == 'method' and name in MUT_METHODS:
        r = ext_root(e.node.args[0].args[0])
        if r is not None and r.args[0] in ('os.environ', 'sys.path', 'sys.modules', 'warnings.filters'):
            return f'{r.args[0]}.{name}'
    return None


def restored(ip, e):
    """The store ``e`` into a foreign object is undone on every path."""
    tgt, attr = e.target, e.node
    for r in ip.events:
        if r.kind != 'store_attr' or r.target is not tgt or r.node is not attr or r is e:
            continue
        if r.infinal is None or r.frame != e.frame:
            continue
        if show(r.value) != f'{show(tgt)}.{attr.args[1]}':
            continue
        # nothing that can fail or return between the patch and the try
        inside = [x for x in ip.events if r.infinal in x.finals]
        between = [
            x for x in ip.events
            if x.seq > e.seq and x.seq < r.seq and r.infinal not in x.finals
            and x.infinal is not r.infinal and x.kind in ('call', 'yield', 'return', 'raise')
        ]
        if r.infinal in e.finals or (inside and not between):
            return True
    return False


def is_restore(ip, e):
    return (
        e.infinal is not None and e.kind == 'store_attr' and e.value is not None
        and show(e.value) == f'{show(e.target)}.{e.node.args[1]}'
    )


def run(ctx, res):
    res.rule('setter', 'no public entry calls a process-wide setter outside a scoped context', 100)
    res.rule('patch', 'a store into a foreign module is restored in a finally block', 0)
    seen = set()
    for f, ip in effects.public_runs(ctx):
        bad = False
        for e in ip.events:
            if e.kind == 'call' and e.node is not None:
                nm = setter_name(e)
                if nm is None or (e.func.qual, nm) in PURPOSE:
                    continue
                scope = SCOPED.get(nm)
                if scope and any(callee(w)[1] == scope for w in e.withs):
                    continue
                bad = True
                res.bad('setter', f'{e.func.qual}:{nm}', e.where(), f'{nm}() changes process-wide state (reached from {f.qual})')
            elif e.kind in ('store_attr', 'store_index', 'del_attr', 'del_index', 'aug'):
                r = ext_root(e.target)
                if r is None:
                    continue
                if e.kind == 'store_attr' and is_restore(ip, e):
                    continue
                ok = e.kind == 'store_attr' and restored(ip, e)
                if ok:
                    if e.where() not in seen:
                        res.ok('patch', f'{show(e.target)} @ {e.where()}')
                    seen.add(e.where())
                    continue
                bad = True
                res.bad('patch', f'{e.func.qual}:{show(e.target)}', e.where(),
                        f'{e.kind} into {show(e.target)} is not undone on every path (reached from {f.qual})')
        if not bad:
            res.ok('setter', f.qual)
