"""P12: the settings of a damage and loss calculation reach the steps they belong to."""

from __future__ import annotations

import copy
from pathlib import PurePosixPath

from .. import dlworld as D
from .. import vq
from ..ceval import NO, Raised, Undecided
from ..lframe import Frame, FTrace, Ix
from ..trace import Stopped

EXPLANATION = (
    'The parsing of the configuration is followed for complete configurations, for configurations in which one setting is missing, for the '
    'arguments of the calculation, and for configurations prepared by auto-population; the calculation is followed to compare the '
    'arguments of every step with the settings they belong to.'
)
PARSE = D.MOD + '_parse_config_file'
ERROR = 'PelicunInvalidConfigError'
FULL = {
    'GeneralInformation': {'units': {'length': 'ft'}},
    'DL': {
        'Asset': {'ComponentAssignmentFile': 'cmp.csv', 'ComponentDatabase': 'FEMA', 'ComponentDatabasePath': 'own/fragility.csv', 'NumberOfStories': '3', 'OccupancyType': 'RES3'},
        'Damage': {
            'CollapseFragility': {'DemandType': 'SA_1.13', 'CapacityDistribution': 'lognormal', 'CapacityMedian': 1.35, 'Theta_1': 0.5}, 'DamageProcess': 'User Defined',
            'DamageProcessFilePath': 'own/process.json', 'IrreparableDamage': {'DriftCapacityMedian': 0.01, 'DriftCapacityLogStd': 0.3}, 'ScalingSpecification': {'C-1-1': '*1.2'},
        },
        'Demands': {
            'DemandFilePath': '/own/demands.csv', 'SampleSize': '500', 'CollapseLimits': {'PID': 0.1}, 'Calibration': {'ALL': {'DistributionFamily': 'normal'}}, 'DemandCloning': {'PGA-0-1': ['PGA-0-2']},
            'InferResidualDrift': {'method': 'FEMA P-58', 'x': 0.0075}, 'CoupledDemands': True,
        },
        'Losses': {'Repair': {
            'MapApproach': 'User Defined', 'MapFilePath': 'own/map.csv', 'ConsequenceDatabase': 'Hazus', 'ConsequenceDatabasePath': 'own/consequence.csv', 'DecisionVariables': {'Cost': True, 'Time': False, 'Carbon': True, 'Energy': False},
            'ReplacementCost': {'Unit': 'USD', 'Median': 5.5}, 'ReplacementTime': {'Unit': 'day', 'Median': 7.5}, 'ReplacementCarbon': {'Unit': 'kg', 'Median': 9.5}, 'ReplacementEnergy': {'Unit': 'MJ', 'Median': 11.5},
            'CombinationMethod': 'Hazus Hurricane',
        }},
        'Options': {'Seed': 7, 'Verbose': False, 'LogFile': 'own_log.txt', 'ListAllDamageStates': False, 'Sampling': {'SampleSize': 250, 'SamplingMethod': 'LHS'}, 'NonDirectionalMultipliers': {'ALL': 1.2}},
        'Outputs': {
            'Demand': {'Sample': True, 'Statistics': False}, 'Asset': {'Sample': False, 'Statistics': True}, 'Damage': {'Sample': True, 'GroupedSample': False}, 'Loss': {'Repair': {'Sample': True, 'AggregateSample': False}},
            'Format': {'CSV': False, 'JSON': True}, 'Settings': {'CondenseDS': True, 'SimpleIndexInJSON': True, 'AggregateColocatedComponentResults': False},
        },
    },
}
CAST = {'DL/Asset/NumberOfStories': 3, 'DL/Options/Sampling/SampleSize': 250}


def run(ctx, res):
    res.rule('given', 'settings given in the configuration are kept', 0)
    res.rule('default', 'settings that are missing get their documented default, and the others are kept', 0)
    res.rule('argument', 'arguments of the calculation replace the settings they belong to', 0)
    res.rule('rejected', 'configurations that contradict themselves or miss required settings are rejected', 0)
    res.rule('auto', 'auto-population prepares the configuration from the scripts of the methods and the arguments', 0)
    res.rule('step', 'every step is called with the settings that belong to it', 0)
    skipped = []
    for f in (given, missing, arguments, rejected, auto, steps, command):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{f.__name__}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


# -- configurations ----------------------------------------------------------------
class Parse(D.World):
    """Everything the parsing of a configuration calls."""

    must = (*D.World.must, 'update', 'validate', 'auto_populate', 'load', 'update_vals', 'get')

    def __init__(self, ctx, doc, params, scripts, folders, invalid):
        super().__init__(ctx, None, params=params)
        self.doc, self.scripts, self.invalid = doc, scripts, invalid
        self.schema, self.validated, self.asked, self.prepared = {'schema': 1}, [], [], {}
        self.dirs |= {'/out', '/in', '/cwd', *folders}
        for p in scripts:
            self.files[p] = 'script'
            self.dirs.add(str(PurePosixPath(p).parent))

    def opened(self, path, mode):
        return super().opened(path, mode) if 'w' in mode else ('file', str(path))

    def __call__(self, tr, n):
        if n.op in ('ext', 'glob') and str(n.args[-1]).endswith('pelicun_path'):
            return '/pelicun'
        if n.op == 'call':
            nm = vq.bname(n)
            c = vq.callee(n)
            full = str(c[1]) if c else ''
            if full == 'json.load':
                a, _kw = tr.args(n)
                return self.schema if a[0][1].endswith('input_schema.json') else self.doc
            if nm == 'validate' and 'jsonschema' in full:
                a, kw = tr.args(n)
                doc, schema = kw.get('instance', a[0] if a else None), kw.get('schema', a[1] if len(a) > 1 else None)
                self.validated.append((copy.deepcopy(doc), schema is self.schema))
                if self.invalid:
                    raise Raised('ValidationError', 'ValidationError')
                return None
            if nm == '_parse_config_file':
                return NO
            if nm == 'auto_populate':
                a, _kw = tr.args(n)
                self.asked.append((copy.deepcopy(a[0]), str(a[1])))
                if str(a[1]) not in self.scripts:
                    raise Raised('FileNotFoundError', 'FileNotFoundError')
                key = (str(a[1]), repr(a[0]))
                if key not in self.prepared:  # comprehensions are evaluated where their values are used
                    cfg, comp = self.scripts[str(a[1])]
                    self.prepared[key] = copy.deepcopy({**{k: v for k, v in a[0].items() if k != 'DL'}, **cfg}), comp.m_copy()
                return self.prepared[key]
            if nm == 'substitute_default_path':
                a, _kw = tr.args(n)
                return [x.replace('PelicunDefault', '/dlml') for x in a[0]]
            if nm == 'update_vals':
                a, _kw = tr.args(n)
                extend(a[0], a[1])
                return None
        return super().__call__(tr, n)


def extend(d, more):
    for k, v in more.items():
        if isinstance(v, dict):
            extend(d.setdefault(k, {}), v)
        else:
            d.setdefault(k, v)


def parse(ctx, doc, scripts=None, folders=(), invalid=False, **kw):
    """The trace, its surroundings and its result."""
    params = {
        'config_path': PurePosixPath('/in/config.json'), 'output_path': PurePosixPath('/out'), 'auto_script_path': None, 'demand_file': '/in/argument.csv', 'realizations': 77, 'output_format': None,
        'custom_model_dir': None, 'coupled_edp': False, 'detailed_results': True, **kw,
    }
    ip = ctx.interp(PARSE, opaque=tuple(x for x in D.OPAQUE if x != PARSE), key='p12')
    w = Parse(ctx, copy.deepcopy(doc), params, scripts or {}, folders, invalid)
    tr = FTrace(ip, w)
    tr.run()
    return tr, w, None if tr.raised or tr.result is None else tr.ev(tr.result)


def shared(tr):
    """Names of the defaults (values of the module) that change while a configuration is parsed."""
    for n, v in list(tr.env.items()):
        if n.op == 'glob' and isinstance(v, (dict, list, set)):
            try:
                if FTrace(tr.ip, tr.world).ev(n) != v:
                    yield str(n.args[-1]).rsplit('.', 1)[-1]
            except Undecided:
                continue


def leaves(d, path=''):
    for k, v in d.items():
        p = f'{path}/{k}' if path else k
        if isinstance(v, dict) and v:
            yield from leaves(v, p)
        else:
            yield p, v


def without(doc, *paths):
    doc = copy.deepcopy(doc)
    for path in paths:
        *ks, last = path.split('/')
        d = doc
        for k in ks:
            d = d.get(k, {})
        d.pop(last, None)
    return doc


def changed(doc, path, v):
    doc = copy.deepcopy(doc)
    D.update(doc, path, v)
    return doc


def equal(a, b):
    return type(a) is type(b) and a == b if isinstance(a, (bool, int, str)) or isinstance(b, (bool, int, str)) else a == b


def at(ctx, name):
    f = ctx.repo.funcs.get(D.MOD + name)
    return f'{f.module.path}:{f.node.lineno}' if f is not None and hasattr(f.module, 'path') else D.MOD + name


def attempt(skipped, tag, f):
    try:
        return f()
    except (Undecided, Raised) as exc:
        skipped.append(f'{tag}: {exc}')
        return None


def given(ctx, res, skipped):
    for tag, doc in (('complete', FULL), ('component sample', changed(without(FULL, 'DL/Asset/ComponentAssignmentFile'), 'DL/Asset/ComponentSampleFile', 'sample.csv'))):
        r = attempt(skipped, tag, lambda doc=doc: parse(ctx, doc))
        if r is None:
            continue
        tr, w, out = r
        if not isinstance(out, dict):
            res.check('given', False, tag, at(ctx, '_parse_config_file'), f'a valid configuration is rejected ({tr.raised.name if tr.raised else "no result"})')
            continue
        for p, v in leaves(doc):
            g = D.get(out, p)
            res.check('given', equal(g, CAST.get(p, v)), f'{tag}: {p}', at(ctx, '_parse_config_file'), f'the setting {p} = {v!r} is replaced by {g!r}')
        ok = len(w.validated) >= 1 and w.validated[0][1] and not set(dict(leaves(doc))) - set(dict(leaves(w.validated[0][0])))
        res.check('rejected', ok, f'{tag}: schema', at(ctx, '_parse_config_file'), 'the configuration is not validated against the schema')


OUT = 'DL/Outputs'
FULLOUT = {p: dict.fromkeys(x, True) for p, x in D.ALL.items() if p != 'Loss'} | {'Loss': {'Repair': dict.fromkeys(D.ALL['Loss'], True)}}
DEFAULT = {
    'DL/Options/Verbose': {'DL/Options/Verbose': True},
    'DL/Options/LogFile': {'DL/Options/LogFile': 'pelicun_log.txt'},
    'DL/Options/ListAllDamageStates': {'DL/Options/ListAllDamageStates': True},
    'DL/Options/Seed': {'DL/Options/Seed': None},
    'DL/Options/Sampling/SampleSize': {'DL/Options/Sampling/SampleSize': 500},
    'DL/Options': {'DL/Options/Sampling/SampleSize': 500, 'DL/Options/Verbose': True, 'DL/Options/LogFile': 'pelicun_log.txt', 'DL/Options/ListAllDamageStates': True},
    'DL/Demands/SampleSize': {'DL/Options/Sampling/SampleSize': 250},
    'DL/Demands/DemandFilePath': {'DL/Demands/DemandFilePath': '/in/argument.csv'},
    'DL/Damage/CollapseFragility/CapacityDistribution': {'DL/Damage/CollapseFragility/CapacityDistribution': 'deterministic', 'DL/Damage/CollapseFragility/Theta_1': 'N/A'},
    'DL/Damage/CollapseFragility': {'DL/Damage/CollapseFragility': None},
    'DL/Damage/IrreparableDamage': {'DL/Damage/IrreparableDamage': None},
    'DL/Demands/CollapseLimits': {'DL/Demands/CollapseLimits': None},
    'DL/Demands/Calibration': {'DL/Demands/Calibration': None},
    'DL/Outputs/Format': {'DL/Outputs/Format/CSV': True, 'DL/Outputs/Format/JSON': False},
    'DL/Outputs/Format/CSV': {'DL/Outputs/Format/JSON': True},
    'DL/Outputs/Settings': {f'{OUT}/Settings/{k}': v for k, v in (('CondenseDS', False), ('SimpleIndexInJSON', False), ('AggregateColocatedComponentResults', True))},
    'DL/Outputs': {f'{OUT}/{p}': True for p, _v in leaves(FULLOUT)},
    'DL/Outputs/Demand': {'DL/Outputs/Demand': None},
    'DL/Outputs/Loss': {'DL/Outputs/Loss': None},
    'DL/Damage/ScalingSpecification': {'DL/Damage/ScalingSpecification': None},
    'DL/Asset/NumberOfStories': {'DL/Asset/NumberOfStories': None},
    'DL/Losses/Repair/MapFilePath': {'DL/Losses/Repair/MapFilePath': None},
}


def missing(ctx, res, skipped):
    w_ = at(ctx, '_parse_config_file')
    for path, want in DEFAULT.items():
        doc = without(FULL, path)
        r = attempt(skipped, f'without {path}', lambda doc=doc: parse(ctx, doc))
        if r is None:
            continue
        tr, _w, out = r
        if not isinstance(out, dict):
            res.check('default', False, f'without {path}', w_, f'a configuration without {path} is rejected ({tr.raised.name if tr.raised else "no result"})')
            continue
        for p, v in want.items():
            g = D.get(out, p)
            ok = D.unspecified(out, p) if v is None else equal(g, v)
            res.check('default', ok, f'without {path}: {p}', w_, f'{p} is {g!r} instead of {v!r} in a configuration without {path}')
        bad = list(shared(tr))
        res.check('default', not bad, f'without {path}: defaults', w_, f'defaults change for later calculations: {", ".join(bad)}')
        bad = [p for p, v in leaves(doc) if p not in want and not equal(D.get(out, p), CAST.get(p, v))]
        res.check('default', not bad, f'without {path}: others', w_, f'settings change in a configuration without {path}: {bad[:3]}')
    doc = without(FULL, 'DL/Demands/DemandFilePath')
    r = attempt(skipped, 'no demand file', lambda: parse(ctx, doc, demand_file=None))
    if r is not None and isinstance(r[2], dict):
        g = D.get(r[2], 'DL/Demands/DemandFilePath')
        res.check('default', str(g) == '/in/response.csv', 'no demand file', w_, f'the demand file is {g} instead of the one next to the configuration')
    for part, stage in (('Damage', 'Damage'), ('Loss', 'Losses')):
        doc = without(FULL, f'DL/{stage}', 'DL/Outputs')
        r = attempt(skipped, f'no {stage}', lambda doc=doc: parse(ctx, doc))
        if r is not None:
            ok = isinstance(r[2], dict) and D.unspecified(r[2], f'{OUT}/{part}') and equal(D.get(r[2], f'{OUT}/Demand/Sample'), True)
            res.check('default', ok, f'no {stage} and no outputs', w_, f'the default outputs of a configuration without {stage} are not those of its steps')


def arguments(ctx, res, skipped):
    w_ = at(ctx, '_parse_config_file')
    for fmt, want in ((['csv'], (True, False)), (['json'], (False, True)), (['csv', 'json'], (True, True)), ([], (False, False)), ('csv', (True, False)), ('csv,json', (True, True)), (None, (False, True))):
        r = attempt(skipped, f'output format {fmt}', lambda fmt=fmt: parse(ctx, FULL, output_format=fmt))
        if r is None or not isinstance(r[2], dict):
            continue
        g = tuple(D.get(r[2], f'{OUT}/Format/{x}') for x in ('CSV', 'JSON'))
        res.check('argument', tuple(map(bool, g)) == want, f'output format {fmt}', w_, f'the output formats are {g} instead of {want} for the argument {fmt}')
    for kw in ({'demand_file': '/other.csv'}, {'realizations': 9}, {'coupled_edp': True}, {'detailed_results': False}, {'custom_model_dir': '/models'}):
        r = attempt(skipped, str(kw), lambda kw=kw: parse(ctx, FULL, **kw))
        if r is None or not isinstance(r[2], dict):
            continue
        bad = [p for p, v in leaves(FULL) if not equal(D.get(r[2], p), CAST.get(p, v))]
        res.check('argument', not bad, f'{kw}', w_, f'settings of the configuration are replaced because of the argument {kw}: {bad[:3]}')


def rejected(ctx, res, skipped):
    w_ = at(ctx, '_parse_config_file')
    cases = {
        'the schema is violated': (FULL, {'invalid': True}),
        'there is no sample size': (without(FULL, 'DL/Demands/SampleSize', 'DL/Options/Sampling/SampleSize'), {}),
        'there is no asset': (without(FULL, 'DL/Asset'), {}),
        'the residual drift inference has no method': (without(FULL, 'DL/Demands/InferResidualDrift/method'), {}),
        'the collapse fragility has no median': (without(FULL, 'DL/Damage/CollapseFragility/CapacityMedian'), {}),
        'the collapse fragility has no second parameter': (without(FULL, 'DL/Damage/CollapseFragility/Theta_1'), {}),
        'the irreparable damage has no median': (without(FULL, 'DL/Damage/IrreparableDamage/DriftCapacityMedian'), {}),
        'the irreparable damage has no dispersion': (without(FULL, 'DL/Damage/IrreparableDamage/DriftCapacityLogStd'), {}),
        'the user-defined damage process has no file': (without(FULL, 'DL/Damage/DamageProcessFilePath'), {}),
        'damage results are requested without damage': (without(FULL, 'DL/Damage'), {}),
        'loss results are requested without losses': (without(FULL, 'DL/Losses'), {}),
        'there are no components': (without(FULL, 'DL/Asset/ComponentAssignmentFile'), {}),
        'components are given twice': (changed(FULL, 'DL/Asset/ComponentSampleFile', 'sample.csv'), {}),
    }
    for tag, (doc, kw) in cases.items():
        r = attempt(skipped, tag, lambda doc=doc, kw=kw: parse(ctx, doc, **kw))
        if r is not None:
            res.check('rejected', r[0].raised is not None and r[0].raised.name == ERROR, tag, w_, f'a configuration is accepted although {tag}' if not r[0].raised else f'{r[0].raised.name} is raised when {tag}')


# -- auto-population ----------------------------------------------------------------
def script(i, **kw):
    dl = {
        'Asset': {'ComponentDatabase': f'DB{i}', 'NumberOfStories': '2'}, 'Damage': {'DamageProcess': f'P{i}'}, 'Losses': {'Repair': {'ConsequenceDatabase': f'CDB{i}', 'MapApproach': 'Automatic'}},
        'Options': {'Seed': 40 + i, 'Sampling': {'SamplingMethod': 'LHS'}},
    }
    dl.update(kw)
    return {'DL': {k: v for k, v in dl.items() if v is not None}}, Frame(Ix([f'C{i}.A', f'C{i}.B']), Ix(['Units', 'Theta_0']), [['ea', float(i)], ['ea', i + 0.5]])


def request(method, options=None, **kw):
    d = {'DL_Method': method}
    if options:
        d['Options'] = options
    return {'GeneralInformation': {'units': {'length': 'm'}}, 'Applications': {'DL': {'ApplicationData': d}}, **kw}


def auto(ctx, res, skipped):  # noqa: C901
    w_ = at(ctx, '_parse_config_file')
    one = {'/dlml/M/pelicun_config.py': script(0)}
    two = {**one, '/dlml/N O/pelicun_config.py': script(1)}
    own = {'/models/pelicun_config.py': script(5)}

    def trial(tag, doc, scripts, judge, **kw):
        r = attempt(skipped, tag, lambda: parse(ctx, doc, scripts, **kw))
        if r is None:
            return
        tr, w, out = r
        bad = judge(tr, w, out)
        if bad is not None:
            res.check('auto', not bad, tag, w_, f'{tag}: {bad}')
        bad = list(shared(tr))
        res.check('auto', not bad, f'{tag}: defaults', w_, f'{tag}: defaults change for later calculations: {", ".join(bad)}')

    def values(want, more=None):
        def judge(tr, w, out):
            if not isinstance(out, dict):
                return f'rejected ({tr.raised.name if tr.raised else "no result"})'
            for p, v in want.items():
                g = D.get(out, p)
                if (not D.unspecified(out, p)) if v is None else str(g) != v if isinstance(v, str) else not equal(g, v):
                    return f'{p} is {g!r} instead of {v!r}'
            return more(w, out) if more else ''

        return judge

    base = {
        'DL/Demands/DemandFilePath': '/in/argument.csv', 'DL/Options/Sampling/SampleSize': 77, 'DL/Options/Sampling/SamplingMethod': 'LHS', 'DL/Options/Seed': 40, 'DL/Asset/ComponentDatabase': 'DB0',
        'DL/Damage/DamageProcess': 'P0', 'DL/Losses/Repair/ConsequenceDatabase': 'CDB0', 'DL/Asset/NumberOfStories': 2, 'DL/Asset/ComponentAssignmentFile': '/out/CMP_QNT.csv',
    }

    def components(*want):
        def judge(w, _out):
            t = w.files.get('/out/CMP_QNT.csv')
            if not isinstance(t, Frame) or t.index.vals != [c for i in want for c in (f'C{i}.A', f'C{i}.B')] or [r[1] for r in t.rows] != [x for i in want for x in (float(i), i + 0.5)]:
                return 'the components are not those of the scripts'
            if any(D.get(cfg, 'DL/Demands/DemandFilePath') != '/in/argument.csv' for cfg, _p in w.asked):
                return 'the script is not given the demand file'
            return ''

        return judge

    trial('one method', request('M'), one, values(base, components(0)))
    trial('two methods', request('M, N O'), two, values({
        **base, 'DL/Asset/ComponentDatabase': 'DB0,DB1', 'DL/Losses/Repair/ConsequenceDatabase': 'CDB0,CDB1', 'DL/Losses/Repair/CombinationMethod': 'Hazus Hurricane',
    }, components(0, 1)))
    trial('coupled demands', request('M'), one, values({**base, 'DL/Demands/CoupledDemands': True, 'DL/Demands/Calibration': None}), coupled_edp=True)
    trial('demands', request('M'), one, values({**base, 'DL/Demands/CoupledDemands': None, 'DL/Demands/Calibration/ALL/DistributionFamily': 'lognormal'}))
    trial('realizations', request('M'), one, values({'DL/Options/Sampling/SampleSize': 1234}), realizations=1234)
    trial('options', request('M', {'ListAllDamageStates': False, 'Sampling': {'PreserveRawOrder': True}, 'Verbose': False}), one, values({
        **base, 'DL/Options/ListAllDamageStates': False, 'DL/Options/Sampling/PreserveRawOrder': True, 'DL/Options/Verbose': False,
    }))
    trial('options only in the request', request('M', {'Seed': 9, 'Verbose': False}), {'/dlml/M/pelicun_config.py': script(0, Options=None)}, values({'DL/Options/Seed': 9, 'DL/Options/Verbose': False, 'DL/Options/Sampling/SampleSize': 77}))
    trial('own model in the configuration', request_own('/models'), own, values({**base, **{k: v for k, v in (('DL/Options/Seed', 45), ('DL/Asset/ComponentDatabase', 'DB5'), ('DL/Damage/DamageProcess', 'P5'), ('DL/Losses/Repair/ConsequenceDatabase', 'CDB5'))}}, components(5)))
    trial('own model as argument', request_own('/elsewhere'), own, values({'DL/Asset/ComponentDatabase': 'DB5'}, components(5)), custom_model_dir='/models')
    allout = {f'{OUT}/{p}': True for p, _v in leaves(FULLOUT)}
    setting = {f'{OUT}/Settings/{k}': True for k in ('CondenseDS', 'SimpleIndexInJSON', 'AggregateColocatedComponentResults')}
    trial('detailed results', request('M'), one, values({**allout, **setting}))
    trial('main results', request('M'), one, values({**setting, f'{OUT}/Demand/Sample': True, f'{OUT}/Damage/GroupedSample': True, f'{OUT}/Loss/Repair/AggregateSample': True, f'{OUT}/Demand/Statistics': False, f'{OUT}/Damage/Sample': False, f'{OUT}/Format/JSON': True, f'{OUT}/Format/CSV': False}), detailed_results=False)
    trial('no losses', request('M'), {'/dlml/M/pelicun_config.py': script(0, Losses=None)}, values({**{k: v for k, v in allout.items() if '/Loss/' not in k}, f'{OUT}/Loss': None, 'DL/Losses': None}))
    for flags in ('1111', '0111', '1011', '0011', '1101', '1110', '0000', '1000', '0100', '0001'):
        f = dict(zip(('IM', 'EDP', 'DM', 'DV'), (c == '1' for c in flags)))
        keep = {'Demand': f['IM'] or f['EDP'], 'Damage': f['DM'], 'Loss': f['DV']}
        want = {}
        for p, v in allout.items():
            part = p.split('/')[2]
            if keep.get(part, True):
                want[p] = v
            else:
                want[f'{OUT}/{part}'] = None
        trial(f'requested {", ".join(k for k, v in f.items() if v) or "nothing"}', request('M', outputs=f), one, values(want))
    trial('no simulation', request('M'), {'/dlml/M/pelicun_config.py': ({'DL': 'N/A'}, script(0)[1])}, lambda tr, w, out: '' if not tr.raised and out is None else 'a calculation is prepared although the script asks for none')

    def refused(tr, _w, _out):
        return '' if tr.raised and tr.raised.name == ERROR else 'accepted' if not tr.raised else tr.raised.name

    trial('no settings from the script', request('M'), {'/dlml/M/pelicun_config.py': ({}, script(0)[1])}, refused)
    trial('no script', request('Other'), one, refused)


def request_own(d):
    r = request('User-provided Models')
    r['Applications']['DL']['ApplicationData']['custom_model_dir'] = d
    return r


# -- steps ---------------------------------------------------------------------------
def steps(ctx, res, skipped):
    w_ = at(ctx, 'run_pelicun')
    m, lo = 'DL/Demands', 'DL/Losses/Repair'
    want = {
        'demand': {
            'demand_path': PurePosixPath('/own/demands.csv'), 'collapse_limits': f'@{m}/CollapseLimits', 'length_unit': '@GeneralInformation/units/length', 'demand_calibration': f'@{m}/Calibration',
            'sample_size': '@DL/Options/Sampling/SampleSize', 'demand_cloning': f'@{m}/DemandCloning', 'residual_drift_inference': f'@{m}/InferResidualDrift', 'coupled_demands': f'@{m}/CoupledDemands',
        },
        'asset': {
            'num_stories': '@DL/Asset/NumberOfStories', 'component_assignment_file': '@DL/Asset/ComponentAssignmentFile', 'collapse_fragility_demand_type': '@DL/Damage/CollapseFragility/DemandType',
            'component_sample_file': '@DL/Asset/ComponentSampleFile', 'add_irreparable_damage_columns': '?DL/Damage/IrreparableDamage',
        },
        'damage': {
            'length_unit': '@GeneralInformation/units/length', 'component_database': '@DL/Asset/ComponentDatabase', 'component_database_path': '@DL/Asset/ComponentDatabasePath', 'collapse_fragility': '@DL/Damage/CollapseFragility',
            'irreparable_damage': '@DL/Damage/IrreparableDamage', 'damage_process_approach': '@DL/Damage/DamageProcess', 'damage_process_file_path': '@DL/Damage/DamageProcessFilePath', 'custom_model_dir': '/models',
            'scaling_specification': '@DL/Damage/ScalingSpecification', 'is_for_water_network_assessment': None,
        },
        'loss': {
            'loss_map_approach': f'@{lo}/MapApproach', 'occupancy_type': '@DL/Asset/OccupancyType', 'consequence_database': f'@{lo}/ConsequenceDatabase', 'consequence_database_path': f'@{lo}/ConsequenceDatabasePath',
            'custom_model_dir': '/models', 'damage_process_approach': '@DL/Damage/DamageProcess', 'replacement_cost_parameters': f'@{lo}/ReplacementCost', 'replacement_time_parameters': f'@{lo}/ReplacementTime',
            'replacement_carbon_parameters': f'@{lo}/ReplacementCarbon', 'replacement_energy_parameters': f'@{lo}/ReplacementEnergy', 'loss_map_path': f'@{lo}/MapFilePath', 'decision_variables': None,
            'loss_combination_method': f'@{lo}/CombinationMethod',
        },
    }
    full = copy.deepcopy(FULL)
    full['DL']['Asset']['NumberOfStories'] = 3
    docs = {'complete': full, 'component sample': changed(without(full, 'DL/Asset/ComponentAssignmentFile'), 'DL/Asset/ComponentSampleFile', 'sample.csv'), 'water': changed(full, 'DL/Asset/ComponentDatabase', 'Hazus Earthquake - Water')}
    for path in ('CollapseLimits', 'Calibration', 'DemandCloning', 'InferResidualDrift', 'CoupledDemands'):
        docs[f'without {path}'] = without(full, f'{m}/{path}')
    for path in ('Damage/CollapseFragility', 'Damage/IrreparableDamage', 'Damage/DamageProcess', 'Damage/DamageProcessFilePath', 'Damage/ScalingSpecification', 'Asset/NumberOfStories', 'Asset/ComponentDatabasePath',
                 'Losses/Repair/ReplacementCost', 'Losses/Repair/ReplacementTime', 'Losses/Repair/ReplacementCarbon', 'Losses/Repair/ReplacementEnergy', 'Losses/Repair/MapFilePath', 'Losses/Repair/CombinationMethod',
                 'Losses/Repair/ConsequenceDatabasePath'):
        docs[f'without {path}'] = without(full, f'DL/{path}')
    docs['without losses'] = without(full, 'DL/Losses', f'{OUT}/Loss')
    docs['without damage'] = without(full, 'DL/Losses', 'DL/Damage', f'{OUT}/Loss', f'{OUT}/Damage')
    for a in ('Cost', 'Time', 'Carbon', 'Energy'):
        docs[f'only {a}'] = changed(full, f'{lo}/DecisionVariables', {x: x == a for x in ('Cost', 'Time', 'Carbon', 'Energy')})
    for tag, doc in docs.items():
        r = attempt(skipped, tag, lambda doc=doc: follow(ctx, doc))
        if r is None:
            continue
        tr, w = r
        if tr.raised:
            res.check('step', False, tag, w_, f'{tag}: the calculation raises {tr.raised.name}')
            continue
        for step, key in (('damage', 'DL/Damage'), ('loss', lo)):
            res.check('step', (step in w.calls) == (not D.unspecified(doc, key)), f'{tag}: {step}', w_, f'{tag}: the calculation of the {step} is {"" if step in w.calls else "not "}run')
        for step, table in want.items():
            if step not in w.calls:
                continue
            args = bind(ctx, step, *w.calls[step])
            if args is None:
                skipped.append(f'{tag}: arguments of {step}')
                continue
            for name, v in table.items():
                if name not in args and name not in signature(ctx, step):
                    continue
                g = args.get(name)
                if name == 'decision_variables':
                    ok, v = g is not None and sorted(g) == sorted(k for k, x in D.get(doc, f'{lo}/DecisionVariables').items() if x), 'the requested ones'
                elif name == 'is_for_water_network_assessment':
                    ok, v = bool(g) == ('Water' in D.get(doc, 'DL/Asset/ComponentDatabase')), tag == 'water'
                elif isinstance(v, str) and v[0] == '?':
                    v = not D.unspecified(doc, v[1:])
                    ok = bool(g) == v
                elif isinstance(v, str) and v[0] == '@':
                    p, v = v[1:], D.get(doc, v[1:])
                    if v is None:
                        v = False if name == 'coupled_demands' else 'User Defined' if (step, name) == ('loss', 'damage_process_approach') else None
                    ok = equal(g, v)
                    name = f'{name} ({p})'
                else:
                    ok = equal(g, v)
                res.check('step', ok, f'{tag}: {step} {name}', w_, f'{tag}: {name} of the {step} calculation is {g!r} instead of {v!r}')
        o = options(tr, w)
        if o is None:
            skipped.append(f'{tag}: options')
        else:
            res.check('step', o[0] == doc['DL']['Options'], f'{tag}: options', w_, f'{tag}: the assessment is created with other options')


def follow(ctx, doc):
    tr, w = D.start(ctx, doc)
    tr.run()
    return tr, w


def options(tr, w):
    if len(w.options) != 1:
        return None
    n = w.options[0]
    v = vq.arg(n, 'config_options', 0)
    return (tr.ev(v),) if v is not None else (None,)


def signature(ctx, step):
    f = ctx.repo.funcs.get(f'pelicun.assessment.DLCalculationAssessment.calculate_{step}')
    if f is None:
        raise Undecided('steps')
    a = f.node.args
    return [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)][1:]


def bind(ctx, step, a, kw):
    names = signature(ctx, step)
    if len(a) > len(names):
        return None
    return {**dict(zip(names, a)), **kw}


def command(ctx, res, skipped):
    """Arguments of the command line."""
    ip = ctx.interp(D.MOD + 'main', opaque=(*D.OPAQUE, D.MOD + 'run_pelicun'), key='p12m')
    want = {
        'config_path': '-c', 'demand_file': '-d', 'output_path': '--dirnameOutput', 'realizations': '-s', 'auto_script_path': '--auto_script', 'custom_model_dir': '--custom_model_dir', 'output_format': '--output_format',
        'detailed_results': '--detailed_results', 'coupled_edp': '--coupled_EDP',
    }
    flags, runs = {}, []
    for e in ip.events:
        if e.kind != 'call' or e.node is None or e.node.op != 'call':
            continue
        nm = vq.bname(e.node)
        if nm == 'add_argument':
            names = [x.args[0] for x in e.node.args[1] if x.op == 'const' and isinstance(x.args[0], str)]
            dest = vq.arg(e.node, 'dest', 99)
            if names:
                d = dest.args[0] if dest is not None and dest.op == 'const' else next((x for x in names if x.startswith('--')), names[0]).lstrip('-').replace('-', '_')
                for x in names:
                    flags[x] = d
        elif nm == 'run_pelicun' and e.node not in runs:
            runs.append(e.node)
    if not flags or not runs:
        skipped.append('command line')
        return
    sig = ctx.repo.func(D.MOD + 'run_pelicun').node.args
    names = [x.arg for x in (*sig.posonlyargs, *sig.args, *sig.kwonlyargs)]
    for n in runs:
        for p, flag in want.items():
            if flag not in flags or p not in names:
                continue
            v = vq.arg(n, p, names.index(p))
            if v is None or v.op != 'attr':
                skipped.append(f'command line: {p}')
                continue
            res.check('argument', v.args[1] == flags[flag], f'command line: {p}', at(ctx, 'main'), f'{p} is the value of --{v.args[1]} instead of {flag}')


__all__ = ['run']
