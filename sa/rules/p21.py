"""P21: looking for newer model data never prevents the use of those that are there."""

from __future__ import annotations

import copy
import re
from datetime import datetime, timedelta
from pathlib import PurePosixPath

from .. import vq
from ..ceval import NO, Raised, Undecided
from ..trace import Stopped, Trace

EXPLANATION = (
    'The import-time check of the model data is followed, with its exceptions and their handlers, for each state of the data and of the '
    'cache, each answer of the server, and each failure of a request or of a file operation.'
)
MOD = 'pelicun.tools.dlml.'
OPAQUE = ('load_cache', 'save_cache', 'get_dlml_data_dir', 'get_api_repo_url', 'download_data_files', 'Logger', '_format_initial_download_error')
ROOT = PurePosixPath('/data')
NOW = datetime(2025, 3, 4, 5, 6, 7)  # noqa: DTZ001
META = {'commit_sha': 'aaaaaaa', 'files': {'a.csv': 'h'}, 'download_type': 'version'}


def run(ctx, res):
    res.rule('import', 'failures of the version check do not reach the caller when there are data', 0)
    res.rule('download', 'data are downloaded exactly when there are none', 0)
    res.rule('daily', 'the server is asked when the last check is a day old, and only then', 0)
    res.rule('newer', 'an update is announced exactly if the release is newer than the data', 0)
    res.rule('cache', 'the check keeps what the cache says about the data', 0)
    skipped = []
    for what, f in (('import', imported), ('check', checked), ('first download', first)):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{what}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


class Version(tuple):
    """A parsed version."""

    __slots__ = ()


def parsed(text):
    if not isinstance(text, str):
        raise Raised('TypeError', 'TypeError')
    m = re.fullmatch(r'v?(\d+(?:\.\d+)*)', text.strip())
    if not m:
        raise Raised('InvalidVersion', 'InvalidVersion')
    v = [int(x) for x in m.group(1).split('.')]
    while v and not v[-1]:
        v.pop()
    return Version(v)


class World:
    """State of the installation and of the server.

    `faults` gives the exceptions raised by 'get', 'status', 'json', 'save' and 'download'.
    """

    def __init__(self, cache=None, release=None, faults=None, data=True, argv=('x',)):
        self.cache, self.release, self.faults, self.data, self.argv = cache or {}, release, faults or {}, data, list(argv)
        self.requests, self.saved, self.downloads, self.warned = [], [], [], []

    def fault(self, what):
        if what in self.faults:
            raise Raised(what, self.faults[what])

    def leaf(self, ev, n):  # noqa: C901
        if n.op == 'exc':
            return 'error'
        if n.op == 'ext' and n.args[0] == 'sys.argv':
            return self.argv
        if n.op == 'ext' and n.args[0] == 'sys.executable':
            return 'python'
        if n.op == 'attr' and n.args[1] in ('name', 'parent', 'parts'):
            p = ev.ev(n.args[0])
            if isinstance(p, PurePosixPath):
                return getattr(p, n.args[1])
        if n.op == 'attr' and n.args[1] in ('days', 'seconds', 'year', 'month', 'day', 'hour', 'minute', 'second'):
            v = ev.ev(n.args[0])
            if isinstance(v, (timedelta, datetime)) and hasattr(v, n.args[1]):
                return getattr(v, n.args[1])
        if n.op == 'attr' and n.args[1] == 'status_code':
            return 200
        if n.op != 'call':
            return NO
        nm, args, kws = vq.bname(n), n.args[1], dict(n.args[2])
        r = vq.recv(n)
        if nm == 'get_dlml_data_dir':
            return ROOT
        if nm == 'get_api_repo_url':
            return 'https://api/repos/o/r'
        if vq.xcall(n, 'Path', 'PurePath') and args:
            return PurePosixPath(*[ev.ev(x) for x in args])
        if 'environ' in str(vq.callee(n)[1]) or r is not None and r.op == 'ext' and 'environ' in r.args[0] or vq.xcall(n, 'getenv'):
            return None
        if nm in ('exists', 'is_file', 'is_dir') and r is not None:
            p = ev.ev(r)
            if not isinstance(p, PurePosixPath):
                raise Undecided('exists')
            return self.data if p.name == 'model_files.txt' else p == ROOT or bool(self.cache)
        if nm in ('now', 'today', 'utcnow') and 'datetime' in str(vq.callee(n)):
            return NOW
        if nm == 'timedelta':
            return timedelta(*[ev.ev(x) for x in args], **{k: ev.ev(x) for k, x in kws.items()})
        if nm in ('fromisoformat', 'fromtimestamp') and 'datetime' in str(vq.callee(n)):
            v = ev.ev(args[0])
            if nm == 'fromisoformat' and not isinstance(v, str):
                raise Raised('TypeError', 'TypeError')
            try:
                return getattr(datetime, nm)(v)
            except (ValueError, TypeError, OverflowError, OSError) as exc:
                raise Raised(str(exc), type(exc).__name__) from exc
        if nm in ('isoformat', 'total_seconds', 'timestamp', 'date') and r is not None:
            v = ev.ev(r)
            if isinstance(v, (datetime, timedelta)):
                return getattr(v, nm)()
        if nm in ('parse', 'Version') and 'version' in str(vq.callee(n)[1]).lower() and args:
            return parsed(ev.ev(args[0]))
        if nm == 'quote':
            return ev.ev(args[0])
        return NO

    def effect(self, ev, e):  # noqa: C901
        n = e.node
        if e.kind != 'call' or n is None or n.op != 'call':
            return NO
        nm = vq.bname(n)
        if nm == 'load_cache':
            return copy.deepcopy(self.cache)
        if nm == 'save_cache':
            self.saved.append(copy.deepcopy(ev.ev(vq.arg(n, 'cache_data', 1))))
            self.fault('save')
            return None
        if nm == 'download_data_files':
            self.downloads.append(e)
            self.fault('download')
            return None
        if nm == '_format_initial_download_error':
            return 'error'
        if vq.xcall(n, 'get', 'request') and str(vq.callee(n)[1]).startswith('requests'):
            self.requests.append(e)
            self.fault('get')
            return 'response'
        if vq.mcall(n, 'raise_for_status'):
            self.fault('status')
            return None
        if vq.mcall(n, 'json'):
            self.fault('json')
            return copy.deepcopy(self.release)
        if nm == 'warn':
            self.warned.append(e)
            return None
        if nm in ('print', 'info', 'warning', 'debug', 'mkdir'):
            return None
        if nm in ('exit', '_exit', 'abort'):
            raise Raised('SystemExit', 'SystemExit')
        return NO

    def follow(self, ip):
        t = Trace(ip, self.leaf, self.effect, strict=True)
        t.run()
        return t


def ago(**kw):
    return (NOW - timedelta(**kw)).isoformat()


FAULTS = [
    {}, {'get': 'RequestException'}, {'get': 'Timeout'}, {'status': 'HTTPError'}, {'json': 'JSONDecodeError'}, {'json': 'ValueError'}, {'save': 'PermissionError'},
    {'save': 'OSError'}, {'get': 'RequestException', 'save': 'PermissionError'},
]
RELEASES = [{'tag_name': 'v2.0'}, {}, {'tag_name': None}, {'tag_name': 3}, [], 'text', None, {'tag_name': 'beta'}]
CACHES = [
    {}, {**META, 'version': 'v1.0'}, {**META, 'version': 'commit-aaaaaaa'}, {**META, 'version': None}, {**META, 'version': 'beta'}, {**META, 'version': 2.0},
    {**META, 'version': 'v1.0', 'last_version_check': 'yesterday'}, {**META, 'version': 'v1.0', 'last_version_check': 17},
    {**META, 'version': 'v1.0', 'last_version_check': [1]}, {**META, 'version': 'v1.0', 'last_version_check': ago(hours=1)},
    {**META, 'version': 'v1.0', 'last_version_check': ago(days=3)}, {**META, 'version': 'v1.0', 'last_version_check': ago(days=3) + '+00:00'},
    {**META, 'version': 'v1.0', 'last_version_check': ago(hours=1), 'update_available': True},
]


# -- import ---------------------------------------------------------------------------
def imported(ctx, res, skipped):
    ip = ctx.interp(MOD + 'check_dlml_data', opaque=OPAQUE, key='p21', lazy=True)
    where = next(e for e in ip.events).where().split(':')[0] + ':check_dlml_data'
    lost = set()
    cases = [(c, RELEASES[0], f) for c in CACHES for f in FAULTS] + [(c, r, {}) for c in CACHES for r in RELEASES[1:]]
    for cache, release, faults in cases:
        w = World(cache, release, faults)
        what = ', '.join([f'{k} fails with {v}' for k, v in faults.items()] or [f'release {release!r}'])
        try:
            t = w.follow(ip)
        except (Undecided, Raised, Stopped) as exc:
            lost.add(str(exc)[:80])
            continue
        nm = f'{what}; version {cache.get("version")!r}, last check {cache.get("last_version_check")!r}'
        res.check('import', t.raised is None, nm, where, f'{t.raised.name if t.raised else ""} at line {line(t.raised)} reaches the caller when {what}')
        res.check('download', not w.downloads, nm, where, 'data are downloaded although there are data')
    for x in sorted(lost):
        skipped.append(f'import: {x}')


def line(exn):
    return getattr(exn.event.pos[1], 'lineno', '?') if exn else ''


def first(ctx, res, skipped):
    ip = ctx.interp(MOD + 'check_dlml_data', opaque=OPAQUE, key='p21', lazy=True)
    where = next(e for e in ip.events).where().split(':')[0] + ':check_dlml_data'
    for argv in (['x'], ['x', 'regional_sim']):
        w = World(data=False, argv=argv)
        t = w.follow(ip)
        res.check('download', len(w.downloads) == 1 and t.raised is None, f'no data, {argv}', where, 'data are not downloaded although there are none')
    for x in ('RuntimeError', 'OSError', 'ValueError'):
        w = World(data=False, faults={'download': x})
        t = w.follow(ip)
        res.check('download', t.raised is not None, f'download fails with {x}', where, 'the failure of the first download is not reported')
    for data in (True, False):
        w = World(data=data, argv=['pelicun', 'dlml', 'update'])
        t = w.follow(ip)
        res.check('download', not w.downloads and t.raised is None, 'update from the command line', where, 'data are downloaded twice by an update from the command line')


# -- version check --------------------------------------------------------------------
def checked(ctx, res, skipped):
    ip = ctx.interp(MOD + 'check_dlml_version', opaque=OPAQUE, key='p21v', lazy=True)
    where = next(e for e in ip.events).where().split(':')[0] + ':check_dlml_version'
    lost = set()

    def follow(w):
        try:
            t = w.follow(ip)
            if t.raised is not None:
                return t.raised
            if t.result is None:
                lost.add('a check that does not return')
                return None
            return t.ev(t.result)
        except (Undecided, Raised, Stopped) as exc:
            lost.add(str(exc)[:80])
            return None

    # daily
    for last, due in (
        (None, True), (ago(minutes=1), False), (ago(hours=23), False), (ago(hours=25), True), (ago(days=2), True), (ago(days=30, hours=3), True), (ago(days=400), True), (ago(days=365), True), (ago(days=31), True), (ago(days=7), True),
        ('yesterday', True), (12, True), ('', True),
    ):
        for faults in ({}, {'get': 'RequestException'}):
            w = World({**META, 'version': 'v1.0', **({'last_version_check': last} if last is not None else {})}, {'tag_name': 'v2.0'}, faults)
            if follow(w) is None:
                continue
            res.check('daily', bool(w.requests) == due, f'last check {last!r}', where, f'the server is {"not " if due else ""}asked when the last check was {last!r}')
            if due and w.saved:
                w2 = World(w.saved[-1], {'tag_name': 'v2.0'})
                if isinstance(follow(w2), dict):
                    res.check('daily', not w2.requests, f'two checks{", the first one failed" if faults else ""}', where, 'the server is asked again right after a check')
            elif due:
                res.bad('daily', 'saved', where, 'the check is not saved')
    # newer
    for mine, theirs, newer in (
        ('v1.0.0', 'v1.0.1', True), ('v1.9.0', 'v1.10.0', True), ('v1.10.0', 'v1.9.0', False), ('v1.0.0', 'v1.0.0', False), ('v2.0.0', 'v1.9.9', False), ('1.0.0', 'v1.0.0', False),
        ('v1.0', 'v2.0', True), ('commit-abcdef1', 'v1.0.0', True), (None, 'v1.0.0', True), ('beta', 'v1.0.0', True), ('beta', 'beta', False), ('v1.0.0', None, False), ('v9.0.0', 'v10.0.0', True),
    ):
        w = World({**META, **({'version': mine} if mine else {})}, {'tag_name': theirs} if theirs else {})
        r = follow(w)
        if not isinstance(r, dict):
            continue
        got = bool(r.get('update_available'))
        res.check('newer', got == newer, f'{mine} and {theirs}', where, f'with version {mine} and release {theirs}, an update is {"" if got else "not "}announced')
        # the saved answer is the same
        if w.saved and isinstance(w.saved[-1], dict):
            r2 = follow(World(w.saved[-1], {'tag_name': theirs}))
            if isinstance(r2, dict):
                res.check('newer', r2 == r, f'{mine} and {theirs}, second check of the day', where, 'the second check of the day gives another answer')
    for f in FAULTS[1:6]:
        w = World({**META, 'version': 'v1.0'}, {'tag_name': 'v2.0'}, f)
        r = follow(w)
        if isinstance(r, dict):
            r2 = follow(World(w.saved[-1], {'tag_name': 'v2.0'})) if w.saved and isinstance(w.saved[-1], dict) else None
            if isinstance(r2, dict):
                res.check('newer', r2 == r, f'failure {f}, second check of the day', where, 'the second check of the day gives another answer')
            res.check('newer', not r.get('update_available') and bool(r.get('error')), f'failure {f}', where, 'a failed check gives no error or announces an update')
    # cache
    for c in ({**META, 'version': 'v1.0'}, {**META, 'version': 'commit-aaaaaaa'}, {**META, 'version': 'v1.0', 'last_version_check': ago(days=3), 'update_available': True}):
        for f in ({}, {'get': 'RequestException'}, {'json': 'ValueError'}):
            w = World(c, {'tag_name': 'v2.0'}, f)
            if not isinstance(follow(w), dict):
                continue
            for s in w.saved:
                ok = isinstance(s, dict) and all(s.get(k) == c[k] for k in ('commit_sha', 'files', 'version', 'download_type'))
                res.check('cache', ok, 'entries about the data', where, 'the check changes what the cache says about the data')
    for x in sorted(lost):
        skipped.append(f'check: {x}')
