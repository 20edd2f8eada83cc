"""P08: truncation limits and the agreement of cdf and inverse cdf."""

from __future__ import annotations

import itertools

from ..avn import AVN, INF, NAN, NINF, Arr, H, P, Undecided, V
from ..flow import callee, children, is_const

EXPLANATION = (
    'The cdf and inverse_transform methods of every random variable class are turned into algebraic terms for each '
    'pattern of missing truncation limits; the terms of the truncated case are compared, up to algebra, with the terms '
    'of the untruncated case of the same class.'
)
U = H('probability')
X = H('value')
T0, T1 = H('lower limit'), H('upper limit')
SCEN = {'no limits': (NAN, NAN), 'lower limit only': (T0, NAN), 'upper limit only': (NAN, T1), 'both limits': (T0, T1)}


def rv_classes(repo):
    base = repo.cls('pelicun.uq.BaseRandomVariable')
    out = []
    for c in base.all_subclasses():
        f = c.lookup('inverse_transform')
        if f is not None and not f.is_abstract and f.cls is not base:
            out.append(c)
    return out


class Method:
    """One method of one class, evaluated for a pattern of limits."""

    def __init__(self, ctx, cls, name, inv):
        self.f = cls.lookup(name)
        self.ip = ctx.interp(self.f.qual, self_cls=cls.qual, key=('p08', cls.qual)) if self.f else None
        self.inv = inv
        if self.f:
            a = self.f.node.args
            self.arg = self.ip.N('param', self.f.qual, [*a.posonlyargs, *a.args][1].arg)
        self.unknown = []

    def avn(self, lim, value, insupport=False):
        e = AVN(self.ip, {self.arg: value},
                attrs={'theta': Arr('theta'), 'truncation_limits': Arr('limits', list(lim))}, insupport=insupport)
        e.inv = self.inv
        e.signed = {T0, T1, X}
        return e

    def at(self, lim, value, insupport=False):
        e = self.avn(lim, value, insupport)
        try:
            return e.ev(self.ip.ret)
        except Undecided as exc:
            self.unknown = e.unknown or [str(exc)]
            return None

    def support(self):
        """Lower support bound applied to the argument when there are no limits."""
        e = self.avn(SCEN['no limits'], X)
        try:
            e.ev(self.ip.ret)
        except Undecided:
            return NINF
        return 0 if ('lo', X) in e.clamps else NINF

    def raises(self, lim, value, direct=False):
        """Raise events whose condition compares the probabilities at the limits."""
        e = self.avn(lim, value)
        for ev in self.ip.events:
            if ev.kind != 'raise':
                continue
            ts = [(e.cond(g), p) for g, p, _k in ev.guards]
            if any(t is not None and t != p for t, p in ts):
                continue
            for g, _p, _k in ev.guards:
                if mentions(g, 'truncation_limits') and (direct or calls_cdf(g)) and compares(g):
                    return ev
        return None


def calls_cdf(g):
    todo, seen = [g], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        k, nm = callee(n) if n.op == 'call' else (None, None)
        if nm and nm.rsplit('.', 1)[-1] == 'cdf':
            return True
        todo.extend(children(n))
    return False


def compares(g):
    todo, seen = [g], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'cmp' and n.args[0] in ('<', '<=', '>', '>='):
            return True
        todo.extend(children(n))
    return False


def mentions_limits(ip):
    """The result depends on the truncation limits."""
    return mentions(ip.ret, 'truncation_limits')


def mentions(node, name):
    todo, seen = [node], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'attr' and n.args[1] == name:
            return True
        todo.extend(children(n))
    return False


def run(ctx, res):
    res.rule('inverse', 'without limits, inverse_transform inverts cdf', 3)
    res.rule('sample', 'with limits, inverse_transform(v) is the untruncated inverse at F(a) + v (F(b) - F(a)), '
             'a and b being the given limits within the support', 6)
    res.rule('cdf', 'with limits, cdf(x) is (F(x) - F(a)) / (F(b) - F(a)), x capped at the same a and b', 6)
    res.rule('mass', 'limits that leave no probability mass are rejected by both methods', 2)
    res.rule('reject', 'a family that ignores truncation limits refuses every limit when it is created, and accepts none', 6)
    res.rule('spread', 'the spread derived from relative parameters does not depend on the sign of the central value')
    skipped = []
    for cls in rv_classes(ctx.repo):
        nm = cls.qual.rsplit('.', 1)[-1]
        inv = {}
        mi = Method(ctx, cls, 'inverse_transform', inv)
        where = mi.f.loc()
        trunc = mentions_limits(mi.ip)
        mc = Method(ctx, cls, 'cdf', inv) if cls.lookup('cdf') else None
        if mc:
            pair(res, nm, mi, mc, skipped)
            if trunc or mentions_limits(mc.ip):
                limits(res, nm, mi, mc, skipped)
        elif trunc:
            skipped.append(f'{nm}: truncated without a cdf')
        if not trunc and not (mc and mentions_limits(mc.ip)):
            ctor(ctx, res, cls, nm, where)
        spread(ctx, res, cls, nm)
    res.analysed['not_judged'] = skipped


def pair(res, nm, mi, mc, skipped):
    no = SCEN['no limits']
    u = mi.at(no, U)
    if u is None or mi.avn(no, U).cond(mi.ip.ret) is not None:
        skipped.append(f'{nm}: inverse {mi.unknown[:1]}')
        return
    back = mc.at(no, u, insupport=True)
    if back is None:
        skipped.append(f'{nm}: cdf {mc.unknown[:1]}')
        return
    res.check('inverse', back == U, nm, mi.f.loc(), 'inverse_transform and cdf are not inverse to each other: they use '
              'different parameters or transformations')


def limits(res, nm, mi, mc, skipped):
    no = SCEN['no limits']
    supp = mc.support()
    uniform = uses(mc.ip, 'scipy.stats.uniform')
    e = mc.avn(no, X)
    for sc, lim in SCEN.items():
        if sc == 'no limits':
            continue
        t0, t1 = lim
        try:
            if uniform:
                lo, hi = H('comp', 'theta', 0), H('comp', 'theta', 1)
                a = e.maxi(t0, lo) if t0 != NAN else lo
                bs = [e.mini(t1, hi) if t1 != NAN else hi]
            else:
                a = supp if t0 == NAN else (e.maxi(t0, supp) if supp != NINF else t0)
                bs = [INF] if t1 == NAN else [e.maxi(t1, supp) if supp != NINF else t1]
            got_i = mi.at(lim, U)
            got_c = mc.at(lim, X)
            exp_i, exp_c = [], []
            for b in bs:
                pa = mc.at(no, a, insupport=True)
                pb = mc.at(no, b, insupport=True)
                if pa is None or pb is None:
                    raise Undecided(str(mc.unknown[:1]))
                d = e.arith('-', pb, pa)
                exp_i.append(mi.at(no, e.arith('+', e.arith('*', U, d), pa)))
                x = e.mini(e.maxi(X, a), b)
                for px in (mc.at(no, x, insupport=True),):
                    if px is None:
                        continue
                    exp_c.append(e.arith('/', e.arith('-', px, pa), d))
                px = mc.at(no, X, insupport=uniform)
                if px is not None:
                    exp_c.append(e.clip01(e.arith('/', e.arith('-', px, pa), d)))
        except Undecided as exc:
            skipped.append(f'{nm} {sc}: {exc}')
            continue
        for rid, got, want, m in (('sample', got_i, exp_i, mi), ('cdf', got_c, exp_c, mc)):
            if got is None:
                skipped.append(f'{nm}.{m.f.name} {sc}: {m.unknown[:1]}')
                continue
            if not want or None in want:
                skipped.append(f'{nm}.{m.f.name} {sc}: no reference')
                continue
            res.check(rid, got in want, f'{nm}, {sc}', m.f.loc(),
                      'the result is not the untruncated distribution restricted to the given limits')
    for m in (mi, mc):
        ok = [sc for sc, lim in SCEN.items() if sc != 'no limits' and not m.raises(lim, X, uniform)]
        res.check('mass', not ok, f'{nm}.{m.f.name}', m.f.loc(),
                  f'limits without probability mass between them are not rejected ({", ".join(ok)})')


def uses(ip, prefix):
    return any(
        e.kind == 'call' and e.node is not None and (callee(e.node)[1] or '').startswith(prefix) for e in ip.events
    )


def ctor(ctx, res, cls, nm, where):
    f = cls.lookup('__init__')
    ip = ctx.interp(f.qual, self_cls=cls.qual, key=('p08', cls.qual))
    a = [x.arg for x in [*f.node.args.posonlyargs, *f.node.args.args, *f.node.args.kwonlyargs]]
    if 'truncation_limits' not in a:
        return
    par = ip.N('param', f.qual, 'truncation_limits')
    th = ip.N('param', f.qual, 'theta')

    def outcome(lim):
        e = AVN(ip, {par: lim, th: Arr('theta')}, attrs={})
        sure = False
        for ev in ip.events:
            if ev.kind != 'raise':
                continue
            if not (ev.node is not None and 'NotImplementedError' in repr(ev.node)):
                continue
            ts = [(e.cond(g), p, k) for g, p, k in ev.guards]
            if all(t == p for t, p, k in ts if k != 'noraise'):
                sure = True
        return sure

    for sc, lim in SCEN.items():
        arr = Arr('limits', list(lim))
        if sc == 'no limits':
            if not accepts_pair(ip, par):
                continue
            res.check('reject', not outcome(arr), f'{nm}, {sc}', f.loc(), 'limits that are not set are rejected')
        else:
            res.check('reject', outcome(arr), f'{nm}, {sc}', f.loc(),
                      'the family ignores truncation limits but does not reject them when it is created')
    res.check('reject', not outcome(None), f'{nm}, None', f.loc(), 'missing limits are rejected')


def accepts_pair(ip, par):
    """The constructor looks at the values of the limits (not only whether they are given)."""
    return any(
        e.kind == 'call' and e.node is not None and (callee(e.node)[1] or '').endswith('isnan')
        and any(x is par or (x.op == 'ite' and par in x.args) for x in e.node.args[1])
        for e in ip.events
    )


def spread(ctx, res, cls, nm):
    """theta passed on by a constructor that combines two parameters."""
    f = cls.methods.get('__init__') if hasattr(cls, 'methods') else None
    if f is None:
        return
    ip = ctx.interp(f.qual, self_cls=cls.qual, key=('p08', cls.qual))
    th = ip.N('param', f.qual, 'theta')
    self_n = ip.N('param', f.qual, 'self')
    for ev in ip.events:
        if ev.kind != 'store_attr' or ev.target is not self_n or ev.node is None or not is_name(ev, 'theta'):
            continue
        vals = {}
        for s in (1, -1):
            m = H('mean')
            e = AVN(ip, {th: Arr('theta', [m * s % P, H('relative')])})
            try:
                v = e.ev(ev.value)
            except Undecided:
                return
            vals[s] = v
        if not all(isinstance(v, Arr) and v.comps and len(v.comps) == 2 for v in vals.values()):
            return
        if vals[1].comps[1] == H('relative'):
            return
        res.check('spread', vals[1].comps[1] == vals[-1].comps[1], nm, ev.where(),
                  'the spread changes sign with the central value')


def is_name(ev, name):
    n = ev.node
    return is_const(n, name) or n == name


_ = (itertools, V)
