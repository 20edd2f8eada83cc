"""P27: every registered variable is sampled from its own distribution with the given correlations."""

from __future__ import annotations

from ..avn import AVN, H, P, Undecided, num
from ..flow import alts, callee, children, cval, is_const, show
from .backed import Backed, follow
from .registry import CLS, OPAQUE, RULE, generated, sets, special, taken

EXPLANATION = (
    'Sampling is followed from the uniform numbers through the correlation to the inverse transformation. The transformation '
    'matrices are rewritten as products of matrix factors and multiplied with their transpose; the uniform numbers of each '
    'sampling method are compared as algebraic terms. Small registries are sampled by following the code, with the sets of each.'
)
REG = 'pelicun.uq.RandomVariableRegistry'
SET = 'pelicun.uq.RandomVariableSet'


def run(ctx, res):
    res.rule('order', 'uniform numbers are assigned first, then correlated, then transformed', 1)
    res.rule('every', 'every variable and every set of the registry takes part', 1)
    res.rule('uniform', 'uniform numbers follow the definition of the sampling method', 0)
    res.rule('free', 'every variable that is not anchored to another one gets its own uniform numbers', 0)
    res.rule('correlation', 'the transformation of the uniform numbers reproduces the correlation matrix', 0)
    res.rule('marginal', 'correlated standard normal numbers have unit variance whatever the matrix', 0)
    res.rule('aligned', 'variables and rows and columns of the matrix are in the same order', 1)
    res.rule('anchor', 'an anchored variable uses the uniform numbers of its anchor', 0)
    res.rule('transform', 'the sample of a variable is its inverse transform of its uniform numbers', 0)
    res.rule('discrete', 'data points and categories are selected in proportion to their probability', 0)
    res.rule('unique', 'a second variable of the same name is rejected', 0)
    res.rule('generated', RULE, 0)
    skipped = []
    own = follow(ctx, res, (generated,), skipped) and not special(ctx, CLS + '.generate_sample', OPAQUE)
    named = follow(ctx, res, (taken, sets), skipped) and not special(ctx, CLS + '.add_RV')
    every, res = res, Backed(res, {'order': own, 'every': own, 'free': own, 'unique': named})
    sampling(ctx, res, skipped)
    uniform(ctx, res, skipped)
    correlation(ctx, res, skipped)
    ordering(ctx, res, skipped)
    variables(ctx, res)
    discrete(ctx, res, skipped)
    creation(ctx, res)
    every.analysed['not_judged'] = skipped


def walk(n):
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def mname(e):
    """Name of the method called by an event."""
    if e.kind != 'call' or e.node is None:
        return None
    if e.node.op == 'call':
        return callee(e.node)[1].rsplit('.', 1)[-1] if callee(e.node)[1] else None
    if e.node.op == 'fn':
        return e.node.args[0].rsplit('.', 1)[-1]
    if e.node.op in ('bound', 'method'):
        return str(e.node.args[-1]).rsplit('.', 1)[-1]
    return None


def ctx_name(e):
    if e.ctx and len(e.ctx) > 1 and getattr(e.ctx[1], 'name', None):
        return e.ctx[1].name
    return mname(e)


def guards_of(e):
    return [(g, p) for g, p, k in e.guards if k == 'br']


def whole(n, attr):
    """Elements of the complete self.<attr>: keys, values or items, nothing filtered out."""
    out = []
    for x in walk(n):
        if x.op == 'elem':
            src = x.args[0]
            if src.op == 'call' and callee(src)[0] == 'method' and callee(src)[1] in ('keys', 'values', 'items'):
                src = src.args[0].args[0]
            if src.op == 'call' and callee(src) in (('ext', 'builtins.list'), ('ext', 'builtins.tuple')):
                src = src.args[1][0]
            out.append(src.op == 'attr' and src.args[1] == attr)
    return bool(out) and all(out)


def sampling(ctx, res, skipped):
    q = REG + '.generate_sample'
    if q not in ctx.repo.funcs:
        return
    ip = ctx.interp(q, opaque=('Logger', 'apply_correlation', 'inverse_transform_sampling'))
    f = ip.entry
    uni = [e for e in ip.events if e.kind == 'store_attr' and is_const(e.node, '_uni_sample')]
    cor = [e for e in ip.events if e.kind == 'call' and ctx_name(e) == 'apply_correlation']
    inv = [e for e in ip.events if e.kind == 'call' and ctx_name(e) == 'inverse_transform_sampling']
    res.check('every', bool(uni), 'uniform numbers assigned', f.loc(), 'no uniform numbers are assigned')
    res.check('every', bool(cor), 'sets correlated', f.loc(), 'the correlation of the sets is not applied')
    res.check('every', bool(inv), 'variables transformed', f.loc(), 'the variables are not transformed')
    if uni and cor and inv:
        ok = max(e.seq for e in uni) < min(e.seq for e in cor) and max(e.seq for e in cor) < min(e.seq for e in inv)
        ok = ok and not (set(looped(cor)) & set(looped(inv))) and not (set(looped(cor)) & set(looped(uni)))
        res.check('order', ok, 'uniform, correlation, transformation', inv[0].where(),
                  'the steps of sampling do not follow each other for all variables')
    for group, attr, what in ((cor, '_sets', 'set'), (inv, '_variables', 'variable')):
        for e in group:
            recv = receiver(e)
            if recv is None:
                continue
            bad = [g for g, p in guards_of(e) if not harmless(g)]
            res.check('every', not bad, f'{what} {show(recv, 2)} without condition', e.where(),
                      f'a {what} only takes part if {show(bad[0], 4) if bad else ""}')
            if any(x.op == 'elem' for x in walk(recv)):
                res.check('every', whole(recv, attr), f'all of {attr}', e.where(), f'only some of the {what}s take part')
    # both parent classes are transformed
    kinds = {x.args[0] for e in inv for g, p in guards_of(e) if p for x in walk(g) if x.op == 'clsref'}
    if kinds:
        subs = {c.name for c in concrete(ctx)}
        for c in concrete(ctx):
            res.check('every', any(k.rsplit('.', 1)[-1] in {b.name for b in c.mro()} or k == c.qual for k in kinds) or not subs,
                      f'class {c.name}', f.loc(), 'variables of this class are not transformed')


def looped(es):
    return [id(l) for e in es for l in e.loops]


def concrete(ctx):
    out = []
    for c in ctx.repo.classes.values():
        if c.module.name == 'pelicun.uq' and c.lookup('inverse_transform') is not None:
            out.append(c)
    return out


def harmless(g):
    """Class tests only."""
    ok = False
    for x in walk(g):
        if x.op == 'call' and callee(x) == ('ext', 'builtins.isinstance'):
            ok = True
        if x.op == 'cmp' or x.op == 'attr' and x.args[1] in ('name', 'distribution', 'anchor'):
            return False
    return ok


def receiver(e):
    n = e.node
    if n is not None and n.op == 'call' and n.args[0].op in ('attr', 'bound'):
        return n.args[0].args[0]
    if n is not None and n.op in ('bound', 'attr'):
        return n.args[0]
    return None


def spread(n):
    """A comparison of the anchor of a variable with the variable itself, reached without negation."""
    if n.op == 'cmp' and n.args[0] in ('==', 'is'):
        a, b = n.args[1:3]
        return any(x.op == 'attr' and x.args[1] == 'anchor' and x.args[0] is y for x, y in ((a, b), (b, a)))
    if n.op == 'or':
        return any(spread(x) for x in n.args)
    if n.op == 'not' and n.args[0].op == 'cmp' and n.args[0].args[0] in ('is not', '!='):
        a, b = n.args[0].args[1:3]
        return any(x.op == 'attr' and x.args[1] == 'anchor' and x.args[0] is y for x, y in ((a, b), (b, a)))
    if n.op == 'cmp' and n.args[0] in ('is not', '!='):
        return False
    return False


def uniform(ctx, res, skipped):
    q = REG + '.generate_sample'
    if q not in ctx.repo.funcs:
        return
    f = ctx.repo.func(q)
    names = [a.arg for a in [*f.node.args.posonlyargs, *f.node.args.args]]
    if 'method' not in names or 'sample_size' not in names:
        return
    for method in ('MonteCarlo', 'LHS', 'LHS_midpoint'):
        ip = ctx.interp(q, opaque=('Logger', 'apply_correlation', 'inverse_transform_sampling'),
                        args=lambda ip, m=method: {'method': ip.const(m)}, key=('p27', method))
        ss = ip.N('param', q, 'sample_size')
        stores = [e for e in ip.events if e.kind == 'store_attr' and is_const(e.node, '_uni_sample')]
        for e in stores:
            v = e.value
            while v.op == 'index' or v.op == 'elem':
                v = v.args[0]
            env = {ss: H('sample size')}
            calls = [x for x in walk(v) if x.op == 'call' and callee(x)[0] == 'method']
            rnd = [x for x in calls if callee(x)[1] in ('random', 'uniform', 'random_sample')]
            prm = [x for x in calls if callee(x)[1] in ('permutation', 'permuted')]
            for x in rnd:
                env[x] = H('uniform')
            for x in prm:
                env[x] = H('permutation')
            for x in walk(v):
                if x.op == 'comp' and any(p in set(walk(x.args[1])) for p in (*prm, *rnd)):
                    c = next(p for p in (*prm, *rnd) if p in set(walk(x.args[1])))
                    if x.args[1] is c:
                        env[x] = env[c]
                if x.op == 'call' and callee(x)[0] == 'ext' and callee(x)[1] in ('numpy.ones', 'numpy.full', 'numpy.zeros'):
                    b = callee(x)[1]
                    env[x] = num(1) if b.endswith('ones') else 0 if b.endswith('zeros') else env.get(x, H('full'))
                    if b.endswith('full'):
                        try:
                            env[x] = AVN(ip, {}).ev(x.args[1][1])
                        except (Undecided, IndexError):
                            env.pop(x)
            for x in prm:
                if callee(x)[1] == 'permutation' and (x.args[1] and x.args[1][0] is ss):
                    evs = [z for z in ip.events if z.kind == 'call' and z.node is x]
                    inside = any(z.op == 'comp' and x in set(walk(z.args[1])) for z in walk(v)) or any(z.loops for z in evs)
                    if evs:
                        res.check('uniform', inside, f'{method}: one permutation for each variable', e.where(),
                                  'the bins of the realizations are the same for all variables')
            av = AVN(ip, env)
            try:
                got = av.flat(av.ev(v))
            except Undecided as exc:
                skipped.append(f'{method}: {exc} {av.unknown[:2]}')
                continue
            u, p, n = H('uniform'), H('permutation'), H('sample size')
            half = num(0.5)
            want = {
                'MonteCarlo': {u, (1 - u) % P},
                'LHS': {av.arith('/', (p + u) % P, n), av.arith('/', (p + 1 - u) % P, n)},
                'LHS_midpoint': {av.arith('/', (p + half) % P, n)},
            }[method]
            res.check('uniform', got in want, f'{method}', e.where(), 'the uniform numbers are not those of the method')
            for x in rnd:
                kw = dict(x.args[2])
                size = kw.get('size', x.args[1][0] if x.args[1] else None)
                if size is not None and size.op in ('list', 'tuple') and len(size.args) == 2:
                    ok = size.args[1] is ss and not is_const(size.args[0])
                    res.check('uniform', ok, f'{method}: one number for each variable and realization', e.where(),
                              'the uniform numbers are shared between variables or realizations')
                elif size is None or size is ss:
                    inside = [z for z in walk(v) if z.op == 'comp' and x in set(walk(z.args[1]))]
                    if not inside:
                        res.check('uniform', False, f'{method}: one number for each variable', e.where(),
                                  'the uniform numbers are shared between the variables')
            # own row of every variable
            if e.value.op == 'index' and e.target.op == 'index':
                k = e.target.args[1]
                if is_const(e.value.args[1]):
                    res.check('free', False, 'own row', e.where(), 'several variables get the same uniform numbers')
            # selection of the free variables
            for x in walk(e.target):
                if x.op in ('comp', 'dcomp') and x.args[-1]:
                    for c in x.args[-1]:
                        if any(z.op == 'attr' and z.args[1] in ('anchor', 'distribution', 'name') for z in walk(c)):
                            res.check('free', spread(c), 'selection of free variables', e.where(),
                                      f'variables that are not anchored may be left out: {show(c, 4)}')
            k2 = [g for g, _p in guards_of(e) if any(z.op == 'elem' for z in walk(g))]
            for g in k2:
                if any(z.op == 'attr' and z.args[1] in ('anchor', 'distribution', 'name') for z in walk(g)):
                    pol = [p for gg, p in guards_of(e) if gg is g][0]
                    res.check('free', spread(g) == pol, 'selection of free variables', e.where(),
                              f'variables that are not anchored may be left out: {show(g, 4)}')


# -- correlation -----------------------------------------------------------
class NotAMatrix(Exception):
    pass


def flip(fs):
    out = []
    for f in reversed(fs):
        if f[0] in ('D', 'S', 'Rho', 'I'):
            out.append(f)
        else:
            out.append((f[0], not f[1]))
    return out


class Mat:
    """Matrix products as lists of (factor, transposed)."""

    def __init__(self, ip):
        self.ip = ip
        self.normalised = False

    def ev(self, n):
        o, a = n.op, n.args
        if o == 'attr' and a[1] == 'T':
            return flip(self.ev(a[0]))
        if o == 'attr' and a[1] in ('_Rho',):
            return [('Rho', False)]
        if o == 'binop' and a[0] == '@':
            return self.ev(a[1]) + self.ev(a[2])
        if o == 'binop' and a[0] == '/' and self.is_norm(a[2], a[1]):
            self.normalised = True
            return self.ev(a[1])
        if o == 'binop' and a[0] == '/' and self.is_norm(a[2], a[1], (0, -2)):
            return self.ev(a[1])
        if o == 'binop' and a[0] == '*':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                v = self.vec(y)
                if v:
                    return self.ev(x) + [v]
        if o == 'phi':
            rs = [self.ev(x) for x in a]
            if all(r == rs[0] for r in rs):
                return rs[0]
        if o == 'index':
            b, k = a
            if b.op == 'call' and callee(b)[0] == 'ext' and is_const(k):
                nm = callee(b)[1]
                if nm.endswith('.svd') and self.is_rho(b):
                    if cval(k) == 0:
                        return [('U', False)]
                    if cval(k) == 2:
                        return [('U', True)]
                if nm.endswith('.eigh') and self.is_rho(b) and cval(k) == 1:
                    return [('U', False)]
        if o == 'call':
            kind, nm = callee(n)
            if kind == 'ext':
                b = nm.rsplit('.', 1)[-1]
                if b == 'cholesky' and self.is_rho(n):
                    lower = nm.startswith('numpy')
                    for k, v in n.args[2]:
                        if k == 'lower' and is_const(v):
                            lower = bool(cval(v))
                    if len(n.args[1]) > 1 and is_const(n.args[1][1]):
                        lower = bool(cval(n.args[1][1]))
                    return [('L', not lower)]
                if b in ('dot', 'matmul') and len(n.args[1]) == 2:
                    return self.ev(n.args[1][0]) + self.ev(n.args[1][1])
                if b in ('transpose',):
                    return flip(self.ev(n.args[1][0]))
                if b in ('diag', 'diagflat'):
                    v = self.vec(n.args[1][0])
                    if v:
                        return [v]
                if b in ('asarray', 'array', 'copy'):
                    return self.ev(n.args[1][0])
                if b == 'sqrt' and n.args[1]:
                    r = self.ev(n.args[1][0])
                    if r == [('S', False)]:
                        return [('D', False)]
                if b == 'ppf' and nm.startswith('scipy.stats.norm'):
                    return [('n', False)]
            if kind == 'method':
                r = n.args[0].args[0]
                if nm == 'dot':
                    return self.ev(r) + self.ev(n.args[1][0])
                if nm == 'transpose':
                    return flip(self.ev(r))
                if nm in ('copy',):
                    return self.ev(r)
        raise NotAMatrix(show(n, 3))

    def is_rho(self, call):
        return bool(call.args[1]) and self.ev(call.args[1][0]) == [('Rho', False)]

    def vec(self, n):
        """Diagonal given by a vector."""
        if n.op == 'call' and callee(n)[0] == 'ext' and callee(n)[1] == 'numpy.sqrt':
            v = self.vec(n.args[1][0])
            return ('D', False) if v == ('S', False) else None
        if n.op == 'binop' and n.args[0] == '**' and is_const(n.args[2], 0.5):
            return ('D', False) if self.vec(n.args[1]) == ('S', False) else None
        if n.op == 'index' and n.args[0].op == 'call' and is_const(n.args[1]):
            nm = callee(n.args[0])[1] or ''
            if nm.endswith('.svd') and cval(n.args[1]) == 1 or nm.endswith('.eigh') and cval(n.args[1]) == 0:
                return ('S', False)
        if n.op == 'index' and n.args[1].op == 'tuple':
            return self.vec(n.args[0])
        return None

    def is_norm(self, d, m, axes=(1, -1)):
        """Euclidean norm of the rows (or the columns) of m."""
        todo = [d]
        while todo:
            x = todo.pop()
            if x.op == 'call' and callee(x)[1] == 'numpy.linalg.norm':
                kw = dict(x.args[2])
                ax = kw.get('axis', x.args[1][2] if len(x.args[1]) > 2 else None)
                return x.args[1][0] is m and ax is not None and is_const(ax) and cval(ax) in axes
            if x.op == 'index':
                todo.append(x.args[0])
            elif x.op == 'call' and callee(x)[1] == 'numpy.sqrt':
                s = x.args[1][0]
                while s.op == 'index':
                    s = s.args[0]
                if s.op == 'call' and (callee(s)[1] or '').rsplit('.', 1)[-1] == 'sum':
                    src = s.args[1][0] if callee(s)[0] == 'ext' else s.args[0].args[0]
                    ax = dict(s.args[2]).get('axis')
                    sq = src.op == 'binop' and src.args[0] == '**' and src.args[1] is m and cval(src.args[2]) in (2, 2.0)
                    return sq and ax is not None and is_const(ax) and cval(ax) in axes
                return False
            else:
                return False
        return False


def reduce_(fs):
    """Identities of the factorisations."""
    rules = [
        ([('L', False), ('L', True)], [('Rho', False)]),
        ([('D', False), ('D', False)], [('S', False)]),
        ([('U', False), ('S', False), ('U', True)], [('Rho', False)]),
        ([('U', True), ('U', False)], []),
        ([('U', False), ('U', True)], []),
    ]
    changed = True
    while changed:
        changed = False
        for a, b in rules:
            for i in range(len(fs) - len(a) + 1):
                if fs[i:i + len(a)] == a:
                    fs = fs[:i] + b + fs[i + len(a):]
                    changed = True
                    break
            if changed:
                break
    return fs


def leaves(n, ip, depth=0):
    """Alternatives of a value, also inside elem()."""
    if depth > 6:
        return [n]
    if n.op in ('ite', 'phi'):
        xs = n.args[1:] if n.op == 'ite' else n.args
        return [y for x in xs for y in leaves(x, ip, depth + 1)]
    if n.op == 'elem':
        return [x if x.op != 'elem' else x for y in leaves(n.args[0], ip, depth + 1) for x in [y]]
    return [n]


def correlation(ctx, res, skipped):
    q = SET + '.apply_correlation'
    if q not in ctx.repo.funcs:
        return
    ip = ctx.interp(q)
    stores = [e for e in ip.events if e.kind == 'store_attr' and is_const(e.node, '_uni_sample')]
    res.check('every', bool(stores), 'correlated numbers are stored', ip.entry.loc(), 'the correlated numbers are not assigned')
    for e in stores:
        for v in leaves(e.value, ip):
            if v.op == 'index':
                v = v.args[0]
            for leaf in leaves(v, ip):
                if leaf.op != 'call' or callee(leaf)[1] != 'scipy.stats.norm.cdf':
                    if leaf.op == 'call' or leaf.op == 'binop':
                        skipped.append(f'correlated numbers: {show(leaf, 2)}')
                    continue
                m = Mat(ip)
                try:
                    fs = m.ev(leaf.args[1][0])
                except NotAMatrix as exc:
                    skipped.append(f'matrix: {exc}')
                    continue
                if fs.count(('n', False)) + fs.count(('n', True)) != 1:
                    continue
                ok = fs[-1] == ('n', False)
                mat = fs[:-1]
                got = reduce_(mat + flip(mat)) if ok else None
                res.check('correlation', got == [('Rho', False)], f'{"".join(x + ("T" if t else "") + " " for x, t in fs)}', e.where(),
                          'the correlation of the transformed numbers is not the given matrix')
                if any(x == 'U' for x, _t in mat):
                    res.check('marginal', m.normalised, 'decomposition of an arbitrary matrix', leaf_where(ip, leaf, e),
                              'the rows of the transformation are not normalised: for a matrix that is not positive '
                              'semidefinite the correlated numbers are not uniform and the variables do not follow their '
                              'own distribution')
        # input and output in the order of the variables
        for x in walk(e.value):
            if x.op == 'comp' and any(z.op == 'attr' and z.args[1] in ('_uni_sample', 'uni_sample') for z in walk(x.args[1])):
                res.check('aligned', whole(x.args[1], '_variables') and not x.args[3], 'uniform numbers of all variables', e.where(),
                          'the uniform numbers of some variables are missing')
        if e.target.op in ('index', 'elem'):
            res.check('aligned', whole(e.target, '_variables'), 'all variables updated', e.where(),
                      'not all variables get their correlated numbers')


def leaf_where(ip, leaf, e):
    for x in ip.events:
        if x.kind == 'call' and x.node is leaf:
            return x.where()
    return e.where()


# -- order of variables and matrix ------------------------------------------
def perm2(n, rho):
    """Permutations applied to rows and columns of rho: (rows, columns) or None."""
    if n is rho:
        return [], []
    if n.op == 'attr' and n.args[1] == 'T':
        r = perm2(n.args[0], rho)
        return r and (r[1], r[0])
    if n.op == 'call':
        kind, nm = callee(n)
        b = (nm or '').rsplit('.', 1)[-1]
        if b in ('asarray', 'array', 'atleast_2d', 'copy', 'ascontiguousarray'):
            return perm2(n.args[1][0] if kind == 'ext' else n.args[0].args[0], rho)
        if b == 'transpose':
            r = perm2(n.args[1][0] if kind == 'ext' else n.args[0].args[0], rho)
            return r and (r[1], r[0])
        return None
    if n.op == 'index':
        r = perm2(n.args[0], rho)
        if r is None:
            return None
        k = n.args[1]
        if k.op == 'call' and (callee(k)[1] or '').endswith('ix_') and len(k.args[1]) == 2:
            return [*r[0], k.args[1][0]], [*r[1], k.args[1][1]]
        if k.op == 'tuple' and len(k.args) == 2:
            p, s = k.args
            full = [x.op == 'slice' for x in (p, s)]
            if full == [True, False]:
                return r[0], [*r[1], s]
            if full == [False, True]:
                return [*r[0], p], r[1]
            return None
        if k.op == 'slice':
            return r
        return [*r[0], k], r[1]
    return None


def ordering(ctx, res, skipped):
    q = SET + '.__init__'
    if q in ctx.repo.funcs:
        ip = ctx.interp(q)
        f = ip.entry
        ps = [a.arg for a in f.node.args.args][1:]
        rvl, rho = ip.N('param', q, ps[1]), ip.N('param', q, ps[2])
        var = {}
        for e in ip.events:
            if e.kind == 'store_attr' and is_const(e.node) and cval(e.node) in ('_variables', '_Rho'):
                key = tuple((g, p) for g, p in guards_of(e))
                for leaf_key, leaf in paths(e.value, key):
                    var.setdefault(leaf_key, {})[cval(e.node)] = (leaf, e)
        for key, d in var.items():
            if len(d) != 2:
                continue
            (v, ev), (r, er) = d['_variables'], d['_Rho']
            pr = perm2(r, rho)
            pv = var_perm(v, rvl)
            if pr is None or pv is None:
                skipped.append(f'set order: {show(v, 2)} / {show(r, 2)}')
                continue
            res.check('aligned', pr[0] == pv and pr[1] == pv, f'set of variables ({"; ".join(show(g, 2) for g, _p in key) or "always"})',
                      er.where(), 'the rows and columns of the correlation matrix are not in the order of the variables')
    q = SET + '.Rho'
    if q in ctx.repo.funcs:
        ip = ctx.interp(q)
        f = ip.entry
        for r in alts(ip.ret, ip):
            base = [x for x in walk(r) if x.op == 'attr' and x.args[1] == '_Rho']
            if not base:
                continue
            pr = perm2(r, base[0])
            if pr is None:
                skipped.append(f'subset: {show(r, 3)}')
                continue
            res.check('aligned', pr[0] == pr[1], f'correlation of a subset ({len(pr[0])} selections)', f.loc(),
                      'rows and columns of the correlation matrix are selected differently')
    q = SET + '.orthotope_density'
    if q in ctx.repo.funcs:
        ip = ctx.interp(q, opaque=('Logger', 'mvn_orthotope_density', 'Rho'))
        f = ip.entry
        for e in ip.events:
            if e.kind != 'call' or ctx_name(e) != 'mvn_orthotope_density':
                continue
            kw = dict(e.node.args[2]) if e.node.op == 'call' else {}
            names = ['mu', 'cov', 'lower', 'upper']
            d = {**dict(zip(names, e.node.args[1])), **kw}
            for side, other in (('lower', 'upper'), ('upper', 'lower')):
                v = d.get(side)
                if v is None:
                    continue
                got = set()
                for x in deep(ip, v):
                    if x.op == 'call' and callee(x)[1] in ('cdf',) or x.op == 'call' and callee(x)[0] == 'method' and callee(x)[1] == 'cdf':
                        got |= {z.args[1] for a in x.args[1] for z in walk(a) if z.op == 'param'} & {'lower', 'upper'}
                if got:
                    res.check('aligned', got == {side}, f'orthotope: {side} limits', e.where(),
                              f'the {other} limits are used as {side} limits')
    sites(ctx, res)


def deep(ip, v):
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))
        todo.extend(val for _k, val, _g in ip.stores.get(x, ()))


def paths(v, key):
    if v.op == 'ite':
        yield from paths(v.args[1], (*key, (v.args[0], True)))
        yield from paths(v.args[2], (*key, (v.args[0], False)))
    else:
        yield key, v


def var_perm(v, rvl):
    """Permutation of the list of variables in a name -> variable dictionary."""
    if v.op == 'dcomp':
        body = v.args[1]
        if body.op == 'elem' and body.args[0] is rvl:
            return []
        if body.op == 'index' and body.args[0] is rvl and body.args[1].op == 'elem':
            return [body.args[1].args[0]]
        if body.op == 'elem' and body.args[0].op == 'comp':
            inner = body.args[0]
            if inner.args[1].op == 'index' and inner.args[1].args[0] is rvl and inner.args[1].args[1].op == 'elem':
                return [inner.args[1].args[1].args[0]]
    return None


def sites(ctx, res):
    """Where sets are created: tags and matrix come from the same table in the same order."""
    for q, f in ctx.repo.funcs.items():
        if not f.module.name.startswith('pelicun.model'):
            continue
        import ast

        if not any(isinstance(n, ast.Call) and ast.unparse(n.func).endswith('RandomVariableSet') for n in ast.walk(f.node)):
            continue
        ip = ctx.interp(q, opaque=('Logger', 'RandomVariableSet', 'RandomVariableRegistry'))
        for e in ip.events:
            if e.kind != 'call' or e.node is None or e.node.op != 'call' or e.frame[-1] != q:
                continue
            if not (show(e.node.args[0], 2).endswith('RandomVariableSet') or e.node.args[0].op == 'clsref'
                    and e.node.args[0].args[0].endswith('RandomVariableSet')):
                continue
            args = list(e.node.args[1]) + [v for _k, v in e.node.args[2]]
            if len(args) < 3:
                continue
            lst, rho = args[1], args[2]
            r = rho
            while r.op == 'call' and callee(r)[0] == 'method' and callee(r)[1] in ('to_numpy', 'copy') or r.op == 'attr' and r.args[1] == 'values':
                r = r.args[0].args[0] if r.op == 'call' else r.args[0]
            src = [x.args[0] for x in walk(lst) if x.op == 'attr' and x.args[1] in ('index', 'columns')]
            if src and r.op == 'attr':
                res.check('aligned', all(s is r for s in src), f'set in {f.name}', e.where(),
                          'the tags of the variables and the correlation matrix come from different tables')
            elif is_matrix(r):
                rows = [[show(z, 3) for z in row.args] for row in is_matrix(r).args]
                n = len(rows)
                ok = all(rows[i][j] == rows[j][i] for i in range(n) for j in range(n)) and all(rows[i][i] in ('1', '1.0') for i in range(n))
                res.check('aligned', ok, f'matrix in {f.name}', e.where(), 'the correlation matrix is not symmetric with a unit diagonal')


def is_matrix(r):
    if r.op == 'call' and (callee(r)[1] or '').rsplit('.', 1)[-1] in ('array', 'asarray') and r.args[1]:
        m = r.args[1][0]
        if m.op in ('list', 'tuple') and m.args and all(x.op in ('list', 'tuple') and len(x.args) == len(m.args) for x in m.args):
            return m
    return None


# -- variables ---------------------------------------------------------------
def variables(ctx, res):
    repo = ctx.repo
    base = repo.classes.get('pelicun.uq.BaseRandomVariable')
    if base is None:
        return
    for c in concrete(ctx):
        m = c.lookup('inverse_transform_sampling')
        if m is None or m.cls is not None and m.cls.name == 'BaseRandomVariable':
            continue
        ip = ctx.interp(m.qual, self_cls=c.qual, opaque=('Logger', 'inverse_transform'), key=('p27', c.qual))
        st = [e for e in ip.events if e.kind == 'store_attr' and is_const(e.node, '_sample')]
        res.check('transform', bool(st), f'{c.name}', m.loc(), 'the sample of the variable is not stored')
        for e in st:
            good = True
            why = ''
            for v in alts(e.value, ip):
                if v.op == 'call' and str(show(v.args[0], 3)).endswith('inverse_transform'):
                    a = v.args[1]
                    if a:
                        for u in alts(a[0], ip):
                            if u.op == 'param' or u.op == 'attr' and u.args[1] in ('_uni_sample', 'uni_sample'):
                                continue
                            good, why = False, show(u, 3)
                elif v.op in ('const', 'binop', 'param'):
                    good, why = False, show(v, 3)
            res.check('transform', good, f'{c.name} sample', e.where(),
                      f'the sample is not the inverse transform of the uniform numbers of the variable: {why}')
    for q, f in repo.funcs.items():
        if f.cls is base and f.name == 'uni_sample' and len(f.node.args.args) == 1:
            ip = ctx.interp(q)
            v = ip.ret
            checked = False
            for key, leaf in paths(v, ()):
                own = leaf.op == 'attr' and leaf.args[1] == '_uni_sample' and leaf.args[0].op == 'param'
                anch = leaf.op == 'attr' and leaf.args[0].op == 'attr' and leaf.args[0].args[1] == 'anchor'
                for g, p in key:
                    if g.op == 'cmp' and g.args[0] in ('is', '==', 'is not', '!=') and any(
                        x.op == 'attr' and x.args[1] == 'anchor' for x in g.args[1:3]
                    ):
                        same = (g.args[0] in ('is', '==')) == p
                        checked = True
                        res.check('anchor', own if same else anch, f'{"own" if same else "anchor"}', f.loc(),
                                  'the uniform numbers are not those of the ' + ('variable' if same else 'anchor'))
            if not checked and v.op == 'attr':
                res.check('anchor', any(x.op == 'attr' and x.args[1] == 'anchor' for x in walk(v)), 'anchor', f.loc(),
                          'the uniform numbers of the anchor are not used')
    ini = base.lookup('__init__')
    if ini is not None:
        ip = ctx.interp(ini.qual, self_cls=base.qual)
        for e in ip.events:
            if e.kind == 'store_attr' and is_const(e.node, 'anchor'):
                for key, leaf in paths(e.value, tuple(guards_of(e))):
                    for g, p in key:
                        if g.op == 'cmp' and g.args[0] in ('is', 'is not') and any(is_const(x, None) for x in g.args[1:3]):
                            none = (g.args[0] == 'is') == p
                            pn = leaf.op == 'param' and leaf.args[1]
                            res.check('anchor', pn == ('self' if none else 'anchor'), f'anchor {"missing" if none else "given"}', e.where(),
                                      'the anchor of the variable is wrong')
    # a class passes the anchor on to the base class
    for c in concrete(ctx):
        init = c.lookup('__init__')
        if init is None or 'anchor' not in [a.arg for a in init.node.args.args + init.node.args.kwonlyargs]:
            continue
        ip = ctx.interp(init.qual, self_cls=c.qual, key=('p08', c.qual))
        st = [e for e in ip.events if e.kind == 'store_attr' and is_const(e.node, 'anchor')]
        if not st:
            continue
        ok = any(any(x.op == 'param' and x.args[1] == 'anchor' and x.args[0] == init.qual for x in walk(e.value)) for e in st)
        res.check('anchor', ok, f'{c.name} keeps its anchor', init.loc(), 'the anchor given to the variable is lost')


def creation(ctx, res):
    q = REG + '.add_RV'
    if q not in ctx.repo.funcs:
        return
    ip = ctx.interp(q)
    rs = [e for e in ip.events if e.kind == 'raise']
    ok = any(any(x.op == 'cmp' and x.args[0] in ('in', 'not in') for g, _p in guards_of(e) for x in walk(g)) for e in rs)
    res.check('unique', ok, 'add_RV', ip.entry.loc(), 'a variable can be replaced by another one of the same name')


def is_theta(n):
    while n.op == 'call' and callee(n)[0] == 'ext' and callee(n)[1] in ('numpy.asarray', 'numpy.array', 'numpy.atleast_1d', 'numpy.ravel'):
        n = n.args[1][0]
    return n.op == 'attr' and n.args[1] == 'theta'


def discrete(ctx, res, skipped):
    fams = {'EmpiricalRandomVariable': empirical, 'CoupledEmpiricalRandomVariable': coupled,
            'MultinomialRandomVariable': multinomial, 'DeterministicRandomVariable': deterministic}
    for c in concrete(ctx):
        if c.name not in fams:
            continue
        m = c.lookup('inverse_transform')
        if m is None:
            continue
        ip = ctx.interp(m.qual, self_cls=c.qual, key=('p27d', c.qual))
        arg = [a.arg for a in m.node.args.args][1]
        for v in leaves(ip.ret, ip):
            r = fams[c.name](ip, v, ip.N('param', m.qual, arg))
            if r is None:
                skipped.append(f'{c.name}: {show(v, 4)}')
            else:
                res.check('discrete', r is True, c.name, m.loc(), r if isinstance(r, str) else '')


def deterministic(_ip, v, size):
    if v.op == 'call' and callee(v)[1] == 'numpy.full':
        a = list(v.args[1]) + [x for _k, x in v.args[2]]
        val = a[1]
        if a[0] is not size:
            return 'the sample does not have the requested size'
        if val.op == 'index' and is_theta(val.args[0]) and is_const(val.args[1]):
            return True if cval(val.args[1]) == 0 else 'the sample is not the given value'
    return None


def empirical(ip, v, u):
    if v.op != 'index' or not is_theta(v.args[0]):
        return None
    k = v.args[1]
    if k.op != 'call':
        return None
    kind, nm = callee(k)
    if kind == 'method' and nm == 'astype':
        k = k.args[0].args[0]
    elif kind != 'ext' or nm not in ('numpy.floor',):
        return None
    while k.op == 'call' and callee(k) == ('ext', 'numpy.floor'):
        k = k.args[1][0]
    if k.op == 'call' and callee(k)[0] == 'ext' and callee(k)[1] in ('numpy.round', 'numpy.rint', 'numpy.around', 'numpy.ceil'):
        return 'the data points do not have the same probability'
    env = {u: H('u')}
    for x in walk(k):
        if x.op == 'call' and callee(x) == ('ext', 'builtins.len') and is_theta(x.args[1][0]):
            env[x] = H('n')
        if x.op == 'attr' and x.args[1] == 'size' and is_theta(x.args[0]):
            env[x] = H('n')
    av = AVN(ip, env)
    try:
        got = av.flat(av.ev(k))
    except Undecided:
        return None
    return True if got == av.arith('*', H('u'), H('n')) else 'the data points do not have the same probability'


def coupled(_ip, v, size):
    if v.op == 'call' and callee(v) == ('ext', 'numpy.resize') and is_theta(v.args[1][0]):
        return True if v.args[1][1] is size else 'the sample does not have the requested size'
    if v.op != 'index' or v.args[1].op != 'slice':
        return None
    lo, hi, st = v.args[1].args
    b = v.args[0]
    if b.op != 'call' or callee(b)[0] != 'ext':
        return None
    if callee(b)[1] == 'numpy.repeat':
        return 'the order of the data is not kept'
    if callee(b)[1] != 'numpy.tile' or not b.args[1]:
        return None
    if not is_theta(b.args[1][0]):
        return 'the sample is not the data in the given order'
    if not (is_const(lo, None) or is_const(lo, 0)) or not (is_const(st, None) or is_const(st, 1)):
        return 'the sample does not start with the first data point'
    return True if hi is size else 'the sample does not have the requested size'


def thresholds(n):
    """cumsum(theta)[:-1] -> True, cumsum(theta) -> False, otherwise None."""
    if n.op == 'index' and n.args[1].op == 'slice':
        lo, hi, st = n.args[1].args
        t = thresholds(n.args[0])
        if t is None:
            return None
        if is_const(lo, None) and is_const(st, None) and is_const(hi, -1):
            return True
        return 'bad'
    if n.op == 'call' and callee(n)[0] == 'ext' and callee(n)[1] == 'numpy.cumsum' and is_theta(n.args[1][0]):
        return False
    if n.op == 'call' and callee(n)[0] == 'method' and callee(n)[1] == 'cumsum' and is_theta(n.args[0].args[0]):
        return False
    return None


def multinomial(ip, v, u):
    wrong = 'the categories do not have the given probabilities'
    if v.op == 'call' and callee(v)[0] == 'ext' and callee(v)[1] in ('numpy.searchsorted', 'numpy.digitize'):
        a = v.args[1]
        t = thresholds(a[0] if callee(v)[1].endswith('sorted') else a[1])
        return None if t is None else True if t is True else wrong
    k = 0
    if v.op == 'binop' and v.args[0] in ('-', '+') and is_const(v.args[2]):
        k = cval(v.args[2]) * (1 if v.args[0] == '-' else -1)
        v = v.args[1]
    st = [e for e in ip.events if e.kind == 'store_index' and e.target is v]
    if len(st) != 2 or not all(e.node.op == 'cmp' and e.node.args[1] is v for e in st) or k < 1:
        return None
    each, last = st
    x = each.node.args[2]
    if x.op != 'elem' or each.node.args[0] not in ('<', '<='):
        return None
    t = thresholds(x.args[0])
    if t is None:
        return None
    if t is not True:
        return wrong
    n = [y for y in walk(last.value) if y.op == 'call' and callee(y) == ('ext', 'builtins.len')]
    env = {y: H('count') if thresholds(y.args[1][0]) is True else (H('count') + 1) % P if is_theta(y.args[1][0]) else H(y.uid) for y in n}
    env.update({y: H('pos') for y in walk(each.value) if y.op == 'pos' and y.args[0] is x.args[0]})
    av = AVN(ip, env)
    try:
        a, b = av.flat(av.ev(each.value)), av.flat(av.ev(last.value))
    except Undecided:
        return None
    if not (last.node.args[0] in ('<', '<=') and is_const(last.node.args[2]) and 1 <= cval(last.node.args[2]) <= k):
        return None
    return True if a == (H('pos') + num(k)) % P and b == (H('count') + num(k)) % P else wrong
