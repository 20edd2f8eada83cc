"""P18: the output directory of a damage and loss calculation."""

from __future__ import annotations

from ..ceval import Raised, Undecided
from ..dlworld import ALL, FILES, MOD, SUMMARY, config, start
from ..trace import Stopped

EXPLANATION = (
    'The calculation is followed from its configuration to its output directory. The directory is a model that records which files are '
    'written, read and removed, and when; the configurations request all results, none, or one, in every combination of formats, with and '
    'without damage and losses.'
)
FULL = {p: dict.fromkeys(r, True) for p, r in ALL.items()}
RESULTS = [*FILES.values(), *SUMMARY]
EARLIER = [*RESULTS, *(f.rsplit('.', 1)[0] + '.json' for f in RESULTS)]
OTHERS = [
    'response.csv', 'CMP_QNT.csv', 'config.json', 'config_ap.json', 'notes.txt', 'old_DMG_grp.zip', 'DV_repair_sample_2.zip', 'DEM.json', 'pelicun_log.txt',
    'my_DL_summary.csv', 'DMG_grp.txt', 'results.zip', 'stats.csv', 'IM.json',
]
STAGES = ('demand', 'asset', 'damage', 'loss')


def run(ctx, res):
    res.rule('files', 'after a calculation, the directory holds the requested results in the requested formats and the unrelated files', 0)
    res.rule('earlier', 'results of an earlier calculation are removed before the first step of a calculation', 0)
    res.rule('others', 'other files of the directory are neither removed nor written', 0)
    res.rule('locked', 'a result of an earlier calculation that cannot be removed is an error', 0)
    res.rule('directory', 'the output directory is created with its parents, and is the one of the configuration if none is given', 0)
    skipped = []
    for args in cases():
        try:
            case(ctx, res, skipped, *args)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{args[0]}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{args[0]}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def cases():
    """Name, outputs, formats, stages, earlier files, failing step, locked file, output path."""
    fmts = [(True, False), (False, True), (True, True), (False, False)]
    nodmg = {k: v for k, v in FULL.items() if k not in ('Damage', 'Loss')}
    noloss = {k: v for k, v in FULL.items() if k != 'Loss'}
    full = list(EARLIER)
    for f in fmts:
        yield 'all results', FULL, f, STAGES, full + OTHERS, None, None, '/out'
        yield 'no results', {}, f, STAGES, full + OTHERS, None, None, '/out'
        yield 'results without losses', noloss, f, STAGES[:3], full + OTHERS, None, None, '/out'
        yield 'results without damage', nodmg, f, STAGES[:2], full + OTHERS, None, None, '/out'
        for part, r in ALL.items():
            yield f'all {part} results', {part: dict.fromkeys(r, True)}, f, STAGES, OTHERS, None, None, '/out'
            for x in r:
                yield f'{part} {x}', {part: {y: y == x for y in r}}, f, STAGES, OTHERS + RESULTS[-3:], None, None, '/out'
                yield f'only {part} {x}', {part: {x: True}}, f, STAGES, [], None, None, '/out'
    for part, r in ALL.items():
        for x in r:
            yield f'all but {part} {x}', {**FULL, part: {y: y != x for y in r}}, (True, True), STAGES, full, None, None, '/out'
    for s in STAGES:
        yield f'failing {s}', FULL, (True, True), STAGES, full + OTHERS, s, None, '/out'
    for x in EARLIER:
        yield f'{x} there', FULL, (True, False), STAGES, [x, *OTHERS], 'demand', None, '/out'
    for x in ('DEM_sample.zip', 'DL_summary.json', 'DV_repair_agg_stats.csv', 'DMG_grp.zip'):
        yield f'{x} locked', FULL, (True, False), STAGES, full, None, x, '/out'
    yield 'configuration directory', FULL, (True, True), STAGES, full + OTHERS, None, None, None
    yield 'new directory', FULL, (True, True), STAGES, [], None, None, '/new/deep'


def expected(outputs, fmt, stages):
    out = set(SUMMARY)
    req = set(SUMMARY)
    for part, r in outputs.items():
        for x, on in r.items():
            if on:
                req.add(FILES[part, x])
    if fmt[0]:
        out |= req
    if fmt[1]:
        out |= {f.rsplit('.', 1)[0] + '.json' for f in req}
    return out


def case(ctx, res, skipped, name, outputs, fmt, stages, files, fail, locked, out):
    d = out or '/in'
    tag = f'{name} ({", ".join(n for n, o in zip(("CSV", "JSON"), fmt) if o) or "no format"})'
    at = ctx.repo.funcs.get(MOD + 'run_pelicun')
    w_ = f'{at.module.path}:{at.node.lineno}' if at is not None and hasattr(at.module, 'path') else MOD + 'run_pelicun'
    tr, w = start(ctx, config(outputs, *fmt, stages), files, fail, [f'{d}/{locked}'] if locked else (), True, out)
    try:
        tr.run()
    except (Undecided, Raised) as exc:
        skipped.append(f'{tag}: {exc}')
        return
    others = {x for x in files if x in OTHERS}
    touched = sorted({str(e[1]) for e in w.log if e[0] in ('write', 'remove') and str(e[1]).startswith(d + '/') and str(e[1])[len(d) + 1:] in OTHERS} | {o for o in others if o not in w.names(d)})
    if others:
        res.check('others', not touched, tag, w_, f'other files of the output directory are removed or written: {touched}')
    if locked:
        ok = tr.raised is not None and tr.raised.name not in ('AssertionError', 'KeyError', 'TypeError', 'AttributeError')
        res.check('locked', ok, tag, w_, f'{locked} cannot be removed, and no error is raised')
        return
    if 'demand' not in w.snapshots:
        skipped.append(f'{tag}: no calculation ({tr.raised and tr.raised.name})')
        return
    first = next(i for i, e in enumerate(w.log) if e[0] == 'calculate')
    if any(e[0] == 'write' for e in w.log[:first]):
        skipped.append(f'{tag}: written before the calculation')
    stale = sorted(p[len(d) + 1:] for p in w.snapshots['demand'] if p.startswith(d + '/') and p[len(d) + 1:] in EARLIER)
    if any(x in EARLIER for x in files):
        res.check('earlier', not stale, tag, w_, f'results of an earlier calculation are there during the calculation: {stale[:4]}')
    if fail:
        res.check('earlier', tr.raised is not None and not (w.names(d) - set(OTHERS)), f'{tag} after', w_, 'results are there after a failing calculation')
        return
    if tr.raised:
        res.check('files', False, tag, w_, f'the calculation raises {tr.raised.name}')
        return
    want = expected(outputs, fmt, stages) | others
    got = w.names(d)
    msg = '; '.join(f'{t}: {sorted(x)[:4]}' for t, x in (('missing', want - got), ('not requested', got - want)) if x)
    res.check('files', got == want, tag, w_, msg or 'as requested')
    elsewhere = sorted(p for p in w.files if not p.startswith(d + '/'))
    if out is None or out != '/out':
        res.check('directory', not elsewhere and got == want, tag, w_, f'results are not in the output directory: {elsewhere[:3]}')
    else:
        res.check('directory', not elsewhere, tag, w_, f'files are written outside of the output directory: {elsewhere[:3]}')


__all__ = ['run']
