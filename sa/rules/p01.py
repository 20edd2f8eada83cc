"""P01: a seeded analysis is reproducible in every process."""

from __future__ import annotations

from .. import effects
from ..flow import alts, callee, children, cval, is_const, show
from ..order import DRAWS, Order

EXPLANATION = (
    'Every public entry is walked with its callees inlined. (draw) each random draw is traced to the '
    'generator it uses, which must come from the receiver\'s state, a parameter or a generator created '
    'from a seed; (global) no draw uses a process-wide or operating-system source; (seed) assigning a '
    'seed replaces the generator the draws use; (order) values built by walking a set or a directory '
    'listing are followed until they are sorted, grouped or used by key, and must not reach model state, '
    'results, files or the order of draws before that; (volatile) clock, process id, hash and similar '
    'values reach neither results nor seeds.'
)

RNG_API = {'default_rng', 'Generator', 'PCG64', 'SeedSequence', 'RandomState', 'BitGenerator', 'MT19937', 'Philox'}
MAKERS = {'numpy.random.default_rng', 'numpy.random.RandomState', 'random.Random', 'numpy.random.PCG64', 'numpy.random.SeedSequence'}
OS_RANDOM = ('secrets.', 'uuid.')
VOLATILE = {
    'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.strftime',
    'time.ctime', 'time.gmtime', 'time.localtime',
    'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today',
    'os.getpid', 'os.urandom', 'builtins.id', 'builtins.hash', 'uuid.uuid4', 'uuid.uuid1', 'os.cpu_count',
    'platform.node', 'socket.gethostname', 'os.times', 'os.getloadavg', 'threading.get_ident', 'os.getppid',
    'multiprocessing.cpu_count', 'object.__hash__',
}
DRAW_DISTS = ('scipy.stats.',)
# modules whose job is not to compute results
NOT_RESULTS = ('pelicun.tools.dlml', 'pelicun.cli', 'pelicun.__init__', 'pelicun.pelicun_warnings')


def root_of(n):
    while n.op in ('attr', 'index', 'elem', 'bound'):
        n = n.args[0]
    return n


def is_generator(ip, recv):
    t = ip.node_type(recv)
    if t and t[0] == 'ann' and 'random' in str(t[1]):
        return True
    return any(
        (x.op == 'attr' and 'rng' in x.args[1].lower())
        or (x.op == 'attr' and x.args[1].lower().endswith('generator'))
        or (x.op == 'param' and 'rng' in str(x.args[1]).lower())
        or (x.op == 'call' and callee(x)[1] in MAKERS)
        or (x.op == 'glob')
        for x in alts(recv, ip)
    )


def none_guard(e):
    """The event only happens when some parameter is None."""
    for g, p, _k in e.guards:
        if g.op == 'cmp' and is_const(g.args[2], None) and root_of(g.args[1]).op == 'param':
            if (g.args[0] in ('is not', '!=') and not p) or (g.args[0] in ('is', '==') and p):
                return True
        if not p and g.op == 'param':
            return True
    return False


def maker_ok(ip, n, makers, seen=()):
    """A generator constructed by ``n`` is governed by a seed the caller controls."""
    args = [*n.args[1], *[v for _k, v in n.args[2]]]
    if not args or all(is_const(a, None) for a in args):
        evs = makers.get(n, [])
        if evs and all(none_guard(e) for e in evs):
            return None
        return 'a generator created without a seed'
    bad = None
    for a in args:
        if contains_volatile(a):
            bad = 'a generator seeded with a value that changes between processes'
        elif all(x.op == 'const' for x in alts(a, ip)):
            bad = 'a generator with a fixed seed, ignoring the seed of the analysis'
        else:
            for x in alts(a, ip):
                if x.op == 'call' and callee(x)[1] in MAKERS:
                    bad = bad or maker_ok(ip, x, makers)
    return bad


def contains_volatile(n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'call':
            k, nm = callee(x)
            if k == 'ext' and nm in VOLATILE:
                return nm
            if k == 'method' and nm in ('now', 'utcnow') and root_of(x.args[0].args[0]).op == 'ext':
                return nm
        todo.extend(children(x))
    return None


def run(ctx, res):
    res.rule('draw', 'every random draw uses a generator governed by the seed of the analysis', 5)
    res.rule('global', 'no random number comes from a process-wide or operating-system source', 40)
    res.rule('seed', 'assigning a seed replaces the generator used by later draws', 2)
    res.rule('order', 'no result depends on the iteration order of a set or a directory listing', 40)
    res.rule('volatile', 'no result or seed depends on the clock, process id, hashes or the machine', 40)
    seen = set()
    nloops = 0
    for f, ip in effects.public_runs(ctx):
        makers = {}
        for e in ip.events:
            if e.kind == 'call' and e.node is not None and callee(e.node)[1] in MAKERS:
                makers.setdefault(e.node, []).append(e)
        clean_g = True
        for e in ip.events:
            if e.kind != 'call' or e.node is None or e.node.op != 'call':
                continue
            kind, name = callee(e.node)
            kws = {k for k, _v in e.node.args[2] if isinstance(k, str)}
            if kind == 'ext':
                parts = name.split('.')
                legacy = name.startswith('numpy.random.') and parts[2] not in RNG_API
                glob = name.startswith('random.') and parts[1] != 'Random'
                osr = name.startswith(OS_RANDOM) or name == 'os.urandom'
                rvs = name.startswith(DRAW_DISTS) and parts[-1] == 'rvs' and 'random_state' not in kws
                if legacy or glob or osr or rvs:
                    clean_g = False
                    res.bad('global', f'{e.func.qual}:{name}', e.where(),
                            f'{name}() is not governed by the seed (reached from {f.qual})')
            elif kind == 'method':
                recv = e.node.args[0].args[0]
                if name == 'sample' and kws & {'n', 'frac', 'replace', 'weights'} and 'random_state' not in kws:
                    clean_g = False
                    res.bad('global', f'{e.func.qual}:sample', e.where(), 'pandas sample() without random_state')
                if name == 'rvs' and 'random_state' not in kws:
                    clean_g = False
                    res.bad('global', f'{e.func.qual}:rvs', e.where(), 'scipy rvs() without random_state')
                if name in DRAWS and is_generator(ip, recv):
                    for x in alts(recv, ip):
                        why = None
                        if x.op == 'call' and callee(x)[1] in MAKERS:
                            why = maker_ok(ip, x, makers)
                        elif x.op == 'attr' or x.op == 'param':
                            if root_of(x).op not in ('param', 'self', 'elem', 'call', 'fresh', 'new', 'cbparam', 'ite', 'phi'):
                                why = f'the process-wide generator {show(x)}'
                        elif x.op in ('glob', 'ext'):
                            why = f'the process-wide generator {show(x)}'
                        if why:
                            res.bad('draw', f'{e.func.qual}:{name}', e.where(),
                                    f'{name}() draws from {why} (reached from {f.qual})')
                        elif (e.where(), f.qual) not in seen:
                            seen.add((e.where(), f.qual))
                            res.ok('draw', f'{name} @ {e.where()} from {f.qual}')
        # generators kept in object state
        for e in ip.events:
            if e.kind == 'store_attr' and e.value is not None and not e.aug:
                for x in alts(e.value, ip):
                    if x.op == 'call' and callee(x)[1] in MAKERS:
                        why = maker_ok(ip, x, makers)
                        if why:
                            res.bad('draw', f'{e.func.qual}:{cval(e.node) if e.node.op == "const" else show(e.node)}',
                                    e.where(), f'{why} is stored (reached from {f.qual})')
        if clean_g:
            res.ok('global', f.qual)
        if f.module.name.startswith(NOT_RESULTS):
            continue
        o = Order(ip)
        fs = o.run()
        nloops += o.loops_seen
        for e, why in fs:
            res.bad('order', f'{e.func.qual}:{why}', e.where(), f'{why} (reached from {f.qual})')
        if not fs:
            res.ok('order', f.qual)
        volatile(ip, f, res)
    seed_rule(ctx, res)
    res.analysed['unordered_loops_followed'] = nloops


def volatile(ip, f, res):
    bad = False
    for e in ip.events:
        v = None
        if e.func is not None and e.func.module.name.startswith(NOT_RESULTS):
            continue
        if e.kind == 'store_attr' and e.value is not None:
            cls = ip.type_cls(e.target)
            if cls is not None and ('Logger' in cls.name or cls.name == 'Options'):
                continue
            v = e.value
        elif e.kind == 'return':
            if f.module.name.endswith(('base', 'regional_sim')) and 'time' in f.name:
                continue
            v = e.node
        elif e.kind == 'call' and e.node is not None:
            k, nm = callee(e.node)
            if k == 'method' and nm in ('to_csv', 'to_json'):
                v = e.node.args[0].args[0]
            elif nm in MAKERS:
                v = e.node
        if v is None or isinstance(v, str):
            continue
        c = contains_volatile(v)
        if c:
            bad = True
            res.bad('volatile', f'{e.func.qual}:{c}', e.where(),
                    f'a result, stored value or seed depends on {c}() (reached from {f.qual})')
    if not bad:
        res.ok('volatile', f.qual)


def seed_rule(ctx, res):
    opt = ctx.repo.cls('pelicun.base.Options')
    rng = opt.methods.get('rng')
    setters = [q for q in ctx.repo.funcs if q.startswith(opt.qual + '.seed') and q != opt.qual + '.seed']
    if rng is None or not setters:
        from ..repo import AnalysisError

        raise AnalysisError('Options.rng / Options.seed setter not found')
    ipr = ctx.interp(rng.qual)
    names = set()
    for x in alts(ipr.ret, ipr):
        if x.op == 'attr' and x.args[0].op == 'param':
            names.add(x.args[1])
        else:
            names.add(None)
    res.check('seed', names and None not in names, 'Options.rng', f'{rng.module.relpath}:{rng.node.lineno}',
              'the rng property does not return the generator kept by the options')
    ips = ctx.interp(setters[0])
    good = False
    for e in ips.events:
        if e.kind != 'store_attr' or e.node is None:
            continue
        nm = e.node.args[1] if e.node.op == 'attr' else cval(e.node)
        if nm in names and not e.guards:
            good = all(
                x.op == 'call' and callee(x)[1] in MAKERS and any(
                    y.op == 'param' and y.args[1] != 'self' for a in x.args[1] for y in alts(a, ips))
                for x in alts(e.value, ips)
            )
    sf = ctx.repo.func(setters[0])
    res.check('seed', good, 'Options.seed', f'{sf.module.relpath}:{sf.node.lineno}',
              'assigning the seed does not replace the generator with one created from that seed')
    # the configured seed reaches the generator
    ipi = ctx.interp(opt.methods['__init__'].qual)
    ok = False
    for e in ipi.events:
        if e.kind == 'store_attr' and e.node is not None:
            nm = e.node.args[1] if e.node.op == 'attr' else cval(e.node)
            if nm in names:
                ok = 'Seed' in consts(e.value)
    res.check('seed', ok, 'Options.__init__', f'{opt.methods["__init__"].module.relpath}:{opt.methods["__init__"].node.lineno}',
              'the configured seed does not reach the generator')


def consts(n):
    seen, todo, out = set(), [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'const':
            out.add(cval(x))
        todo.extend(children(x))
    return out
