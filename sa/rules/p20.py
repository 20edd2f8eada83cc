"""P20: the installed model data are complete and belong to one version."""

from __future__ import annotations

import copy
import itertools
import re
from pathlib import PurePosixPath

from .. import vq
from ..ceval import NO, Eval, Raised, Undecided
from ..flow import cval, is_const, show
from ..trace import Stopped, Trace

EXPLANATION = (
    'The effects of a download on the files of the data directory (files downloaded, written, renamed and removed, cache read and saved) '
    'are followed in order for each state of the installation: empty, another version, the same version, damaged and missing files, with '
    'and without the cache. Every point where a download may be interrupted is a state from which another download is followed.'
)
MOD = 'pelicun.tools.dlml.'
OPAQUE = ('_get_changed_files', '_resolve_version_to_commit_sha', 'load_cache', 'save_cache', 'get_file_hash', '_download_file', 'get_raw_repo_url',
          'get_api_repo_url', 'get_dlml_data_dir', 'Logger')
ROOT = PurePosixPath('/data')
RAW, API = 'https://raw/o/r', 'https://api/repos/o/r'
A, B, C = 'aaaaaa0', 'bbbbbb1', 'cccccc2'
COMMITS = {
    A: {'x/f.csv': 'x of A', 'y.csv': 'y of both', 'z.json': 'z of A', 'w.csv': 'w of both'},
    B: {'x/f.csv': 'x of B', 'y.csv': 'y of both', 'n.csv': 'n of B', 'w.csv': 'w of both'},
    C: {'x/f.csv': 'x of C', 'w.csv': 'w of C', 'z.json': 'z of A'},
    'main': {'x/f.csv': 'x of main', 'y.csv': 'y of both'},
}
UNLISTED = {A: {'w.csv'}}  # files of a commit that are not in its list


def listed(sha):
    return {f: t for f, t in COMMITS[sha].items() if f not in UNLISTED.get(sha, ())}


def manifest(sha):
    return '# list of files\n\n' + ''.join(f'{f}\n' if i else f'{f}  \n' for i, f in enumerate(listed(sha)))


def run(ctx, res):
    res.rule('complete', 'the data are marked as installed only when all files are there', 0)
    res.rule('version', 'after a download all files are those of the requested version', 0)
    res.rule('recover', 'a download after an interrupted one gives the requested version', 0)
    res.rule('resolve', 'the version requested is the one whose files are downloaded', 0)
    res.rule('compare', 'incomplete comparisons of versions are not used', 0)
    res.rule('hash', 'a file counts as unchanged only if its whole content is', 0)
    res.rule('cache', 'an unreadable cache is treated as no cache', 0)
    skipped = []
    for what, f in (('download', download), ('resolution', resolve), ('comparison', compare), ('hash', hashed), ('cache', cached)):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{what}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


# -- the data directory --------------------------------------------------------------
class Disk:
    def __init__(self, files=None, limit=None):
        self.files, self.steps, self.limit, self.hook, self.missing = dict(files or {}), 0, limit, None, None

    def step(self):
        """A change of the disk has happened; the process may end here."""
        self.steps += 1
        if self.hook:
            self.hook(self)
        if self.limit is not None and self.steps >= self.limit:
            raise Stopped

    def put(self, path, text):
        self.files[path] = None
        self.step()
        self.files[path] = text
        self.step()


class File:
    def __init__(self, path, mode, text):
        self.path, self.mode, self.text = path, mode, text

    def __iter__(self):
        return iter(self.text(self.path).splitlines(keepends=True))


class Model:
    """Outside world of the download: requests, files and the cache."""

    def __init__(self, disk, target, params, compared=True):
        self.disk, self.target, self.params, self.compared = disk, target, params, compared
        self.asked = []

    def path(self, x):
        return x if isinstance(x, PurePosixPath) else PurePosixPath(x)

    def leaf(self, ev, n):  # noqa: C901
        if n.op in ('param', 'arg') and n.args[-1] in self.params:
            return self.params[n.args[-1]]
        if n.op == 'call':
            nm = vq.bname(n)
            if nm == 'get_dlml_data_dir':
                return ROOT
            if nm == 'get_raw_repo_url':
                return RAW
            if nm == 'get_api_repo_url':
                return API
            if nm == '_resolve_version_to_commit_sha':
                return self.target, {'version': 'v1', 'download_type': 'version'}
            if vq.xcall(n, 'Path', 'PurePath') and n.args[1]:
                return PurePosixPath(*[ev.ev(x) for x in n.args[1]])
            if vq.xcall(n, 'get', 'getenv') and 'environ' in show(n.args[0], 3) or vq.mcall(n, 'get') and 'environ' in show(vq.recv(n), 2):
                return None
            r = vq.recv(n)
            if r is not None and nm in ('exists', 'is_file', 'joinpath', 'with_suffix', 'with_name', 'as_posix', 'resolve', 'absolute', 'is_absolute', 'is_relative_to', 'relative_to', 'is_dir'):
                p = ev.ev(r)
                if not isinstance(p, PurePosixPath):
                    raise Undecided(show(n, 3))
                if nm in ('exists', 'is_file'):
                    return p in self.disk.files
                if nm == 'is_dir':
                    return p not in self.disk.files
                if nm in ('resolve', 'absolute'):
                    out = []
                    for x in p.parts:
                        if x == '..':
                            if len(out) > 1:
                                out.pop()
                        else:
                            out.append(x)
                    return PurePosixPath(*out)
                return getattr(p, nm)(*[ev.ev(x) for x in n.args[1]])
            if vq.xcall(n, 'join') and 'os.path' in str(vq.callee(n)[1]):
                return str(PurePosixPath(*[str(ev.ev(x)) for x in n.args[1]]))
            if vq.xcall(n, 'exists', 'isfile') and n.args[1]:
                return self.path(ev.ev(n.args[1][0])) in self.disk.files
            if vq.xcall(n, 'now', 'today', 'utcnow', 'time', 'isoformat') or vq.mcall(n, 'isoformat', 'strftime', 'timestamp'):
                return 'now'
            if vq.mcall(n, 'open') or vq.xcall(n, 'open'):
                return self.opened(ev, n)
            if vq.mcall(n, 'readlines', 'read', 'read_text', 'readline'):
                f = ev.ev(r)
                t = self.text(f.path if isinstance(f, File) else self.path(f))
                return t.splitlines(keepends=True) if nm == 'readlines' else t
        if n.op == 'enter':
            return ev.ev(n.args[0])
        if n.op == 'attr' and n.args[1] in ('name', 'parent', 'parts', 'anchor', 'stem', 'suffix', 'drive', 'root', 'parents'):
            p = ev.ev(n.args[0])
            if isinstance(p, PurePosixPath):
                return getattr(p, n.args[1])
            raise Undecided(show(n, 3))
        return NO

    def opened(self, ev, n):
        args = list(n.args[1])
        p = vq.recv(n)
        if p is None:
            p, args = args[0], args[1:]
        kw = dict(n.args[2])
        mode = ev.ev(args[0]) if args else ev.ev(kw['mode']) if 'mode' in kw else 'r'
        return File(self.path(ev.ev(p)), mode, self.text)

    def text(self, p):
        t = self.disk.files.get(p)
        if not isinstance(t, str):
            raise Undecided(f'content of {p}')
        return t

    def effect(self, ev, e):  # noqa: C901
        if e.kind == 'with_enter' and e.node is not None and e.node.op == 'call' and vq.bname(e.node) == 'open':
            return NO
        if e.kind != 'call' or e.node is None or e.node.op != 'call':
            return NO
        n, nm, d = e.node, vq.bname(e.node), self.disk
        args = n.args[1]
        if nm == 'load_cache':
            c = d.files.get(self.path(ev.ev(args[0])))
            return copy.deepcopy(c) if isinstance(c, dict) else {}
        if nm == 'save_cache':
            v = ev.ev(vq.arg(n, 'cache_data', 1))
            d.put(self.path(ev.ev(args[0])), copy.deepcopy(v))
            return None
        if nm == '_download_file':
            url, p = ev.ev(vq.arg(n, 'url', 0)), self.path(ev.ev(vq.arg(n, 'local_path', 1)))
            d.put(p, remote(url))
            return None
        if nm == 'get_file_hash':
            t = d.files.get(self.path(ev.ev(args[0])), NO)
            return None if t is NO else f'hash of {t}'
        if nm == '_get_changed_files':
            a, b = ev.ev(vq.arg(n, 'base_commit', 0)), ev.ev(vq.arg(n, 'head_commit', 1))
            self.asked.append((a, b))
            if not self.compared or a not in COMMITS or b not in COMMITS:
                return None
            fa, fb = COMMITS[a], COMMITS[b]
            return {f for f in {*fa, *fb} if fa.get(f) != fb.get(f)}
        if nm in ('unlink', 'remove') and (vq.mcall(n, 'unlink') or vq.xcall(n, 'remove', 'unlink')):
            r = vq.recv(n) if vq.mcall(n, 'unlink') else args[0]
            p = ev.ev(r)
            if isinstance(p, (str, PurePosixPath)):
                if d.files.pop(self.path(p), NO) is not NO:
                    d.step()
                return None
            return NO
        if nm in ('replace', 'rename', 'move') and (vq.mcall(n, 'replace', 'rename') and len(args) == 1 or vq.xcall(n, 'replace', 'rename', 'move')):
            src, dst = (vq.recv(n), args[0]) if vq.mcall(n, 'replace', 'rename') else args[:2]
            src, dst = self.path(ev.ev(src)), self.path(ev.ev(dst))
            if src in d.files:
                d.files[dst] = d.files.pop(src)
                d.step()
            return dst
        if nm in ('copy', 'copyfile', 'copy2') and vq.xcall(n, nm) and len(args) == 2:
            d.put(self.path(ev.ev(args[1])), d.files.get(self.path(ev.ev(args[0]))))
            return None
        if nm == 'write_text' and vq.mcall(n, 'write_text'):
            d.put(self.path(ev.ev(vq.recv(n))), ev.ev(args[0]))
            return None
        if nm == 'open':
            f = self.opened(ev, n)
            if any(x in f.mode for x in 'wx'):
                d.files[f.path] = None
                d.step()
            return f
        if nm in ('write', 'writelines') and vq.mcall(n, 'write', 'writelines'):
            f = ev.ev(vq.recv(n))
            if not isinstance(f, File):
                return NO
            v = ev.ev(args[0])
            t = ''.join(v) if not isinstance(v, str) else v
            d.files[f.path] = (d.files.get(f.path) or '') + t
            d.step()
            return len(t)
        if nm == 'dump' and vq.xcall(n, 'dump') and len(args) == 2:
            f = ev.ev(args[1])
            if isinstance(f, File):
                d.files[f.path] = copy.deepcopy(ev.ev(args[0]))
                d.step()
                return None
        if nm in ('readlines', 'read', 'read_text', 'readline') and vq.recv(n) is not None:
            ev.env.pop(n, None)
            return self.leaf(ev, n)
        if nm in ('mkdir', 'makedirs', 'set_description', 'info', 'warning', 'debug', 'set_postfix', 'print'):
            return None
        return NO


class Missing(Exception):
    """A file is requested that a version does not have."""


def remote(url):
    m = re.fullmatch(re.escape(RAW) + r'/([^/]+)/(.+)', url)
    if not m or m.group(1) not in COMMITS:
        raise Undecided(f'nothing at {url}')
    sha, f = m.groups()
    if f == 'model_files.txt':
        return manifest(sha)
    if f not in COMMITS[sha]:
        raise Missing(f'{f} of {sha}')
    return COMMITS[sha][f]


# -- downloads ------------------------------------------------------------------------
class Download:
    def __init__(self, ip):
        self.ip = ip

    def go(self, files, target, use_cache, compared=True, limit=None, hook=None):
        """Disk after a download (interrupted after some steps if there is a limit)."""
        d = Disk(files, limit)
        d.hook = hook
        by_commit = len(target) > 4
        m = Model(d, target, {'use_cache': use_cache, 'version': 'latest', 'commit': target if by_commit else None}, compared)
        t = Trace(self.ip, m.leaf, m.effect)
        try:
            t.run()
        except Stopped:
            return d, None
        except Missing as exc:
            d.missing = str(exc)
            return d, t
        return d, t


def find_marker(ctx):
    """File whose existence means that the data are installed."""
    ip = ctx.interp(MOD + 'check_dlml_data', opaque=('download_data_files', 'check_dlml_version', 'get_dlml_data_dir', 'Logger'), key='p20m')
    m = Model(Disk(), A, {})
    for e in ip.events:
        if e.kind == 'call' and e.node is not None and vq.bname(e.node) == 'download_data_files':
            for g, _p, _k in e.guards:
                for x in vq.walk(g):
                    if vq.mcall(x, 'exists', 'is_file') or vq.xcall(x, 'exists', 'isfile'):
                        p = vq.recv(x) if vq.mcall(x, 'exists', 'is_file') else x.args[1][0]
                        return m.path(Eval(ip, m.leaf).ev(p))
    return None


def wrong(disk, sha):
    """Files that are not those of a version."""
    if disk.missing:
        return [disk.missing]
    return [f for f, t in listed(sha).items() if disk.files.get(ROOT / f) != t]


def download(ctx, res, skipped):
    ip = ctx.interp(MOD + 'download_data_files', opaque=OPAQUE, key='p20')
    marker = find_marker(ctx)
    fn = next(e for e in ip.events)
    where = fn.where().split(':')[0] + ':download_data_files'
    dl = Download(ip)

    # a complete first installation
    first = {}
    for target in (A, B, 'main'):
        for use in (True, False):
            early = []

            def hook(d, target=target, early=early):
                if marker in d.files and wrong(d, target):
                    early.append(wrong(d, target))

            d, t = dl.go({}, target, use, hook=hook)
            if t.raised is not None:
                skipped.append(f'first download ends with {t.raised.name}')
                return
            first[target, use] = d.files
            nm = f'first download{"" if use else " without the cache"}'
            if marker is None:
                skipped.append('marker of an installation')
            else:
                res.check('complete', not early, nm, where, f'{marker.name} is written before {", ".join(sorted(early[0])) if early else ""}')
                res.check('complete', marker in d.files, nm + ' at its end', where, f'{marker.name} is not written')
            res.check('version', not wrong(d, target), nm, where, f'{", ".join(wrong(d, target))} not downloaded')
    if any(len(f) < 3 for f in first.values()):
        skipped.append('files downloaded')
        return

    def seen(rule, d, target, nm):
        res.check(rule, not wrong(d, target), nm, where, f'{", ".join(wrong(d, target))} of another version after the download')

    # later downloads
    states = {'another version': first[A, True], 'another version without a cache': first[A, False]}
    damaged = dict(first[A, True])
    damaged[ROOT / 'y.csv'] = 'damaged'
    states['a damaged file'] = damaged
    lost = {k: v for k, v in first[A, True].items() if k.name != 'y.csv'}
    states['a lost file'] = lost
    partial = dict(first[A, True])
    c = next((k for k, v in partial.items() if isinstance(v, dict)), None)
    if c is not None:
        partial[c] = {k: v for k, v in partial[c].items() if k != 'files'}
        states['a cache without files'] = partial
    for nm, files in states.items():
        for use in (True, False):
            for compared in (True, False):
                d, t = dl.go(files, B, use, compared)
                what = f'{nm}{"" if use else ", not using the cache"}{"" if compared else ", without comparison"}'
                if t.raised is not None:
                    skipped.append(what)
                    continue
                seen('version', d, B, what)
                # and back again
                for back in (True, False):
                    d2, t2 = dl.go(d.files, A, back, compared)
                    if t2.raised is None:
                        seen('version', d2, A, f'{what}, then the first version{"" if back else " without the cache"}')
    # histories of versions
    for names in itertools.product('ABC', repeat=4):
        if any(x == y for x, y in itertools.pairwise(names)):
            continue
        files = {}
        for x in names:
            d, t = dl.go(files, {'A': A, 'B': B, 'C': C}[x], True)
            if t.raised is not None:
                skipped.append(f'history {"".join(names)}')
                break
            files = d.files
        else:
            seen('version', d, {'A': A, 'B': B, 'C': C}[names[-1]], f'versions {", ".join(names)} one after the other')
    # a branch that moves
    for use in (True, False):
        old = dict(COMMITS['main'])
        d, _t = dl.go({}, 'main', use)
        COMMITS['main']['x/f.csv'] = 'x of main, later'
        try:
            d2, t2 = dl.go(d.files, 'main', True)
            if t2.raised is None:
                seen('version', d2, 'main', 'a branch that has moved')
        finally:
            COMMITS['main'].clear()
            COMMITS['main'].update(old)

    # interruptions
    for nm, files, target in (('first download', {}, A), ('update', first[A, True], B), ('update without a cache', first[A, False], B)):
        for use in (True, False):
            d, _t = dl.go(files, target, use)
            for k in range(1, d.steps):
                broken, t = dl.go(files, target, use, limit=k)
                for then in (A, B):
                    for use2 in (True, False):
                        for compared in (True, False):
                            d2, t2 = dl.go(broken.files, then, use2, compared)
                            if t2.raised is None:
                                if marker is not None and d2.files.get(marker) != manifest(then):
                                    res.bad('recover', f'{nm} interrupted', where, f'{marker.name} is not that of the version downloaded after a download was interrupted')
                                res.check('recover', not wrong(d2, then), f'{nm} interrupted, then {"the same" if then == target else "another"} version', where,
                                          f'{", ".join(wrong(d2, then))} not those of the version downloaded after a download was interrupted')


# -- comparison of versions -----------------------------------------------------------
def compare(ctx, res, skipped):
    ip = ctx.interp(MOD + '_get_changed_files', opaque=('get_api_repo_url', 'Logger'), key='p20c')
    where = next(e for e in ip.events).where()
    fa = listed(A)
    few = [{'filename': f, 'status': 'modified'} for f in fa]
    many = [{'filename': f'f{i}', 'status': 'modified'} for i in range(300)]
    most = many[:299]
    cases = [
        ('ahead', {'status': 'ahead', 'files': few}, None, [set(fa), None]),
        ('identical', {'status': 'identical', 'files': []}, {'status': 'identical', 'files': []}, [set(), None]),
        ('behind', {'status': 'behind', 'files': []}, {'status': 'ahead', 'files': few}, [set(fa), None]),
        ('diverged', {'status': 'diverged', 'files': few[:1]}, {'status': 'diverged', 'files': few[1:]}, [None]),
        ('a list of files that is cut', {'status': 'ahead', 'files': many}, None, [None]),
        ('a long list of files', {'status': 'ahead', 'files': most}, None, [{f['filename'] for f in most}, None]),
        ('a cut list of files in the other direction', {'status': 'behind', 'files': []}, {'status': 'ahead', 'files': many}, [None]),
    ]
    for nm, fwd, rev, ok in cases:
        def leaf(ev, n, fwd=fwd, rev=rev):
            if n.op in ('param', 'arg') and n.args[-1] in ('base_commit', 'head_commit', 'headers'):
                return {'base_commit': A, 'head_commit': B, 'headers': {}}[n.args[-1]]
            if n.op == 'call':
                if vq.bname(n) == 'get_api_repo_url':
                    return API
                if vq.mcall(n, 'json') and vq.xcall(vq.recv(n), 'get', 'request'):
                    url = next((x for x in (ev.ev(y) for y in vq.recv(n).args[1][:2]) if isinstance(x, str) and '/' in x), '')
                    m = re.search(r'/compare/(\w+)\.\.\.(\w+)', url)
                    if not m:
                        raise Undecided(url)
                    got = fwd if m.groups() == (A, B) else rev if m.groups() == (B, A) else None
                    if got is None:
                        raise Undecided(f'comparison {url}')
                    return got
            return NO
        t = Trace(ip, leaf, lambda _ev, _e: NO)
        try:
            t.run()
            if t.result is None:
                skipped.append(f'comparison: {nm}')
                continue
            v = t.ev(t.result)
        except (Undecided, Raised) as exc:
            skipped.append(f'comparison: {nm}: {exc}')
            continue
        v = set(v) if isinstance(v, (list, tuple, set, frozenset)) else v
        res.check('compare', v in ok, nm, where, 'the comparison gives files as unchanged that may have changed')


# -- resolution of versions -----------------------------------------------------------
def resolve(ctx, res, skipped):
    """Commit whose files are downloaded for a version or commit requested."""
    ip = ctx.interp(MOD + '_resolve_version_to_commit_sha', opaque=('get_api_repo_url', 'Logger'), key='p20r')
    where = next(e for e in ip.events).where()
    light, note, older = 'c' * 40, 'd' * 40, 'e' * 40
    release = {'v1': ('v1', 'main'), 'v2': ('v2', 'main'), 'latest': ('v2', 'main')}
    refs = {'v1': {'type': 'commit', 'sha': light}, 'v2': {'type': 'tag', 'sha': note}}
    answers = {'/commits': [{'sha': older}, {'sha': light}], f'/git/tags/{note}': {'sha': note, 'object': {'type': 'commit', 'sha': older}}}
    for t, (name, branch) in release.items():
        answers['/releases/latest' if t == 'latest' else f'/releases/tags/{t}'] = {'tag_name': name, 'target_commitish': branch}
    for t, o in refs.items():
        answers[f'/git/refs/tags/{t}'] = answers[f'/git/ref/tags/{t}'] = {'ref': f'refs/tags/{t}', 'object': o}
    cases = [
        ('a release with a plain tag', 'v1', None, light), ('a release with an annotated tag', 'v2', None, older), ('the latest release', 'latest', None, older),
        ('the latest commit', 'latest', 'latest', older), ('a commit', 'latest', B, B), ('a commit and a version', 'v1', B, B),
    ]
    for nm, ver, commit, want in cases:
        def leaf(ev, n, ver=ver, commit=commit):
            if n.op in ('param', 'arg') and n.args[-1] in ('version', 'commit', 'headers'):
                return {'version': ver, 'commit': commit, 'headers': {}}[n.args[-1]]
            if n.op == 'call':
                if vq.bname(n) == 'get_api_repo_url':
                    return API
                if vq.mcall(n, 'json') and vq.xcall(vq.recv(n), 'get', 'request'):
                    url = next((x for x in (ev.ev(y) for y in vq.recv(n).args[1][:2]) if isinstance(x, str) and '/' in x), '')
                    a = answers.get(url.removeprefix(API).split('?')[0], NO)
                    if a is NO:
                        raise Undecided(f'nothing at {url}')
                    return a
            return NO
        t = Trace(ip, leaf, lambda _ev, _e: NO)
        try:
            t.run()
            if t.result is None:
                skipped.append(f'resolution: {nm}')
                continue
            v = t.ev(t.result)
        except (Undecided, Raised) as exc:
            skipped.append(f'resolution: {nm}: {exc}')
            continue
        got = v[0] if isinstance(v, tuple) else v
        if isinstance(got, str):
            res.check('resolve', got == want, nm, where, f'the files of {got[:7]} are downloaded instead of those of {want[:7]}')
        else:
            skipped.append(f'resolution: {nm}')


# -- hashes ---------------------------------------------------------------------------
def hashed(ctx, res, skipped):
    ip = ctx.interp(MOD + 'get_file_hash', opaque=('Logger',), key='p20h')
    where = next(e for e in ip.events).where()
    ups = [e for e in ip.events if e.kind == 'call' and e.node is not None and e.node.op == 'call' and (
        vq.mcall(e.node, 'update') or vq.xcall(e.node, 'sha256', 'md5', 'sha1', 'new', 'blake2b', 'file_digest') and e.node.args[1])]
    if not ups:
        skipped.append('hash')
        return
    for e in ups:
        n = e.node
        data = n.args[1][0] if not vq.xcall(n, 'new') else n.args[1][-1]
        if vq.xcall(n, 'file_digest'):
            res.check('hash', True, 'content', e.where(), '')
            continue
        reads = [x for x in vq.walk(data) if vq.mcall(x, 'read', 'read_bytes', 'readinto')]
        if not reads:
            if data.op in ('elem', 'phi', 'mu', 'cbparam'):
                skipped.append(f'hash of {show(data, 3)}')
            else:
                res.bad('hash', 'content', e.where(), f'the hash is not that of the content but of {show(data, 3)}')
            continue
        for r in reads:
            sized = bool(r.args[1] or r.args[2]) and not (r.args[1] and is_const(r.args[1][0]) and cval(r.args[1][0]) in (-1, None))
            res.check('hash', not sized or bool(e.loops) and not any(lp.breaks and lp.iter is not None for lp in e.loops), 'content', e.where(),
                      'the hash does not cover the whole file')


# -- cache ----------------------------------------------------------------------------
def cached(ctx, res, skipped):
    ip = ctx.interp(MOD + 'load_cache', opaque=('Logger',), key='p20l')
    where = next(e for e in ip.events).where()
    loads = [e for e in ip.events if e.kind == 'call' and e.node is not None and vq.xcall(e.node, 'load', 'loads')]
    if len(loads) != 1:
        skipped.append('cache')
        return
    ld = loads[0]
    keys = {g for g, _p, k in ld.guards if k == 'try'}

    def follow(value, tries):
        def leaf(_ev, n):
            if n is ld.node:
                return value
            if vq.mcall(n, 'exists', 'is_file') or vq.xcall(n, 'exists', 'isfile'):
                return True
            if n.op in ('param', 'arg') and n.args[-1] == 'cache_file':
                return PurePosixPath('/data/c')
            if vq.xcall(n, 'Path') and n.args[1]:
                return PurePosixPath('/data/c')
            if vq.mcall(n, 'open') or vq.xcall(n, 'open') or n.op == 'enter' or vq.mcall(n, 'read', 'read_text', 'read_bytes'):
                return 'f'
            return NO
        t = Trace(ip, leaf, lambda _ev, _e: NO, tries)
        t.run()
        if t.raised is not None or t.result is None:
            return t
        return t.ev(t.result)

    v = follow({'commit_sha': A}, {})
    res.check('cache', v == {'commit_sha': A}, 'a cache', where, 'the cache is not returned')
    for bad in ([], 'text', 3, None):
        v = follow(bad, {})
        res.check('cache', v == {}, f'JSON that is not an object ({bad!r})', where, 'a cache that is not an object is returned')
    handlers = [e for e in ip.events if e.kind == 'handler']
    names = ' '.join(ast_names(e) for e in handlers)
    if keys:
        v = follow({}, dict.fromkeys(keys, False))
        res.check('cache', v == {}, 'an unreadable cache', where, 'an error while reading the cache is not treated as no cache')
    broad = 'Exception' in names.split() or 'BaseException' in names.split()
    res.check('cache', bool(handlers) and (broad or 'OSError' in names and 'ValueError' in names.split()), 'errors while reading', where,
              'not all errors while reading the cache are handled')


def ast_names(e):
    import ast

    t = getattr(e.pos[1], 'type', None)
    if t is None:
        return 'BaseException'
    return ' '.join(x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(t) if isinstance(x, (ast.Name, ast.Attribute)))
