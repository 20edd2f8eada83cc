"""Shared plumbing for the checks: results, evidence, known findings."""

from __future__ import annotations

import json
import os
import time
import traceback

from .flow import Interp
from .repo import AnalysisError, Repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    """Obligations decided by one check."""

    def __init__(self, prop):
        self.prop = prop
        self.rules: dict[str, dict] = {}
        self.violations: list[dict] = []
        self.samples: list[str] = []
        self.analysed: dict[str, object] = {}
        self.assumptions: list[str] = []

    def rule(self, rid, text, minimum=1):
        self.rules.setdefault(
            rid, {'text': text, 'minimum': minimum, 'instances': 0, 'ok': 0}
        )

    def ok(self, rid, instance):
        r = self.rules[rid]
        r['instances'] += 1
        r['ok'] += 1
        if len(r.setdefault('examples', [])) < 4:
            r['examples'].append(str(instance)[:200])

    def bad(self, rid, construct, where, msg):
        r = self.rules[rid]
        r['instances'] += 1
        key = f'{rid}|{construct}'
        if any(v['key'] == key for v in self.violations):
            return
        self.violations.append(
            {'key': key, 'rule': rid, 'construct': construct, 'where': where, 'msg': msg}
        )

    def check(self, rid, cond, construct, where, msg):
        if cond:
            self.ok(rid, f'{construct} @ {where}')
        else:
            self.bad(rid, construct, where, msg)
        return cond


class Ctx:
    """Per-run context with cached interpretations."""

    def __init__(self, tier='quick'):
        self.repo = Repo()
        self.tier = tier
        self._cache = {}
        self.interps = 0
        self.stmts = 0
        self.events = 0
        self.funcs = set()

    def interp(self, qual, *, opaque=('Logger',), self_cls=None, args=None, key=None, maxdepth=14, hooks=None, lazy=False):
        """Interpret ``qual`` once (cached unless bespoke args are given)."""
        ck = (qual, tuple(sorted(opaque)), self_cls, key)
        if (args is None or key is not None) and ck in self._cache:
            return self._cache[ck]
        f = self.repo.func(qual)
        ip = Interp(self.repo, opaque=opaque, maxdepth=maxdepth, hooks=hooks)
        ip.lazy = lazy
        a = args(ip) if callable(args) else args
        st = self.repo.cls(self_cls) if self_cls else None
        ret = ip.run(f, a, self_type=st)
        ip.entry = f
        ip.ret = ret
        self.interps += 1
        self.stmts += ip.stats['stmts']
        self.events += len(ip.events)
        self.funcs |= ip.stats['funcs']
        if args is None or key is not None:
            self._cache[ck] = ip
        return ip


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf-8') as f:
        return json.load(f)['findings']


def run_check(prop, fn, tier, level='other', explanation=''):
    """Run one check; returns the exit code."""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    res = Result(prop)
    try:
        ctx = Ctx(tier)
        fn(ctx, res)
    except AnalysisError as exc:
        print(f'ANALYSIS-BROKEN property={prop}: {exc}')
        return 3
    except Exception as exc:  # noqa: BLE001
        traceback.print_exc()
        if not any(r['instances'] for r in res.rules.values()):
            print(f'ANALYSIS-BROKEN property={prop}: internal error')
            return 3
        # what was decided before counts, the rest is not judged
        res.analysed.setdefault('not_judged', []).append(f'internal error: {type(exc).__name__} {exc}')
    known = {
        k['key']: k
        for k in load_known()
        if k.get('property') == prop and k.get('status') == 'open'
    }
    short = [
        rid
        for rid, r in res.rules.items()
        if r['instances'] < r['minimum']
    ]
    live = [v for v in res.violations if v['key'] not in known]
    listed = [v for v in res.violations if v['key'] in known]
    n_obl = sum(r['instances'] for r in res.rules.values())
    n_ok = sum(r['ok'] for r in res.rules.values())
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': level,
        'coverage': {
            'explanation': explanation
            or 'Static analysis of the current source; see rules for what was decided.',
            'source_digest': ctx.repo.digest,
            'modules_parsed': len(ctx.repo.modules),
            'functions_defined': len(ctx.repo.funcs),
            'entry_points_interpreted': ctx.interps,
            'functions_reached': len(ctx.funcs),
            'statements_interpreted': ctx.stmts,
            'effect_events': ctx.events,
            'obligations': n_obl,
            'discharged': n_ok,
            'rules': res.rules,
            'known_findings': [v['key'] for v in listed],
            'too_few_instances': short,
            **res.analysed,
        },
        'assumptions': res.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(live),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
    for rid, r in res.rules.items():
        print(f'rule {rid}: {r["ok"]}/{r["instances"]} instances hold -- {r["text"]}')
    for v in listed:
        print(f'KNOWN-FINDING: property={prop} [{v["key"]}] {v["where"]}: {v["msg"]}')
    if live:
        rp = os.path.join(VERIF, 'evidence', f'{prop}.violations.json')
        with open(rp, 'w', encoding='utf-8') as f:
            json.dump(live, f, indent=1)
        for v in live:
            print(f'  {v["where"]}: [{v["rule"]}] {v["construct"]}: {v["msg"]}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    for s in short if n_obl else ():
        print(f'NOT-JUDGED property={prop}: too few instances for {s} ({res.rules[s]["instances"]}<{res.rules[s]["minimum"]})')
    if short and not n_obl:
        print(
            f'ANALYSIS-BROKEN property={prop}: too few instances for '
            + ', '.join(f'{s} ({res.rules[s]["instances"]}<{res.rules[s]["minimum"]})' for s in short)
        )
        return 3
    print(
        f'OK property={prop}: {n_ok} obligations discharged, '
        f'{len(listed)} known findings, {ev["wall_s"]}s'
    )
    return 0
