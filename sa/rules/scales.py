"""Scaling of the parameters of a distribution, followed from the source for every family and kind of limits."""

from __future__ import annotations

from ..ceval import Raised, Undecided
from ..lframe import NAN, Arr, FTrace, isnan
from ..trace import Stopped
from .p38 import World
from .p39 import alike, own_entry
from .p40 import result

AT = 'pelicun.uq.scale_distribution'
LIMITS = {'no limits': None, 'undefined limits': (NAN, NAN), 'a lower limit': (0.5, NAN), 'an upper limit': (NAN, 8.0), 'two limits': (0.5, 8.0), 'a negative limit': (-3.0, NAN), 'a limit of zero': (0.0, 6.0)}


def values(x):
    return list(x.flat) if isinstance(x, Arr) else list(x) if isinstance(x, (list, tuple)) else None


def scaled(ctx, res, skipped, specs, unsupported):
    f = ctx.repo.func(AT)
    names = [a.arg for a in f.node.args.args][:4]
    where = f'{f.module.relpath}:{f.node.lineno}'
    for fam, good in sorted(specs.items()):
        for what, lim in LIMITS.items():
            if lim is not None and unsupported(ctx, fam) and not all(isnan(x) for x in lim):
                continue
            for factor in (2.5, 1.0, 0.001):
                label = f'{fam}, {what}, {factor}'
                theta = Arr((3,), [4.0, 0.5, NAN])
                given = None if lim is None else Arr((2,), list(lim))
                w = World(dict(zip(names, (factor, fam, theta, given))))
                try:
                    tr = FTrace(ctx.interp(AT, key='scales', hooks={'index': own_entry}), w).run()
                    if tr.raised:
                        continue  # rejected with an error
                    got = result(tr)
                except Raised:
                    continue
                except (Undecided, Stopped) as exc:
                    skipped.append(f'{label}: {exc}')
                    continue
                if not isinstance(got, (tuple, list)) or len(got) != 2:
                    skipped.append(f'{label}: result')
                    continue
                th, cut = values(got[0]), got[1]
                if th is None or len(th) < 2:
                    skipped.append(f'{label}: parameters')
                    continue
                for k in (0, 1):
                    want = [theta0 * factor**p for theta0, p in {((4.0, 0.5)[k], s[k]) for s in good}]
                    if len(want) == 1 and (k == 0 or not isnan(th[k]) or not unsupported(ctx, fam)):
                        res.check('scale', any(alike(th[k], x) for x in want), f'{label}: Theta_{k}', where, f'{label}: parameter {k} is {th[k]}, not {want[0]}')
                exp = None if lim is None else [x * factor for x in lim]
                have = values(cut) if cut is not None else None
                if (cut is None) != (have is None):
                    skipped.append(f'{label}: limits')
                    continue
                same = all(isnan(x) for x in exp or [NAN]) and all(isnan(x) for x in have or [NAN]) or exp is not None and have is not None and len(exp) == len(have) and all(isnan(a) == isnan(b) and (isnan(a) or alike(a, b)) for a, b in zip(exp, have))
                res.check('scale', same, f'{label}: limits', where, f'{label}: the limits are {have}, not {exp}')
                res.check('scale', alike(theta.flat[:2], [4.0, 0.5]) and (given is None or all(isnan(a) and isnan(b) or a == b for a, b in zip(given.flat, lim))), f'{label}: given', where, f'{label}: the parameters that are given are changed')
