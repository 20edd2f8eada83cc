"""P19: downloads stay inside the data directory, the token goes to the API only."""

from __future__ import annotations

from pathlib import PurePosixPath

from .. import vq
from ..ceval import NO, Raised, Undecided
from ..flow import cval, is_const, show
from ..trace import Stopped, Trace
from . import p20

EXPLANATION = (
    'The files written by a download are followed for lists of files with names that lead outside of the data directory. All requests are '
    'enumerated with their time limits, the checks of their status, and the headers they send; the value of the token is followed '
    'through the functions that handle it.'
)
MOD = p20.MOD
BAD = ['../out.csv', 'a/../../out.csv', '/out.csv', '/data/../out.csv', 'a/b/../../../out.csv', '../data/../../out.csv', '..', 'a/..//../../out.csv']
GOOD = ['a.csv', 'a/b.csv', 'a..b/c.csv', '..a.csv', 'a b/c.csv', 'a/b/c/d.json', '.hidden/a.csv', 'a.csv..']
VERBS = ('get', 'post', 'put', 'head', 'request', 'delete', 'patch', 'urlopen', 'urlretrieve')
BODY = ('json', 'iter_content', 'iter_lines', 'content', 'text', 'raw')
ENTRY = ('download_data_files', 'check_dlml_version', 'check_dlml_data', 'dlml_update')
SINKS = ('print', 'warn', 'info', 'warning', 'error', 'debug', 'critical', 'exception', 'log', 'write', 'writelines', 'write_text', 'dump', 'save_cache', 'system', 'run', 'Popen')


def run(ctx, res):
    res.rule('inside', 'files are written inside the data directory only', 0)
    res.rule('listed', 'all names inside the data directory are accepted', 0)
    res.rule('timeout', 'every request has a time limit', 0)
    res.rule('status', 'answers are used after their status has been checked', 0)
    res.rule('token', 'the token is sent to the API only', 0)
    skipped = []
    for what, f in (('names', names), ('writers', writers), ('requests', requests), ('token', token)):
        try:
            f(ctx, res, skipped)
        except (Undecided, Raised, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{what}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


# -- names ----------------------------------------------------------------------------
def normal(p):
    out = []
    for x in PurePosixPath(p).parts:
        if x == '..':
            if len(out) > 1:
                out.pop()
        else:
            out.append(x)
    return PurePosixPath(*out)


class Listed(p20.Model):
    """A server whose list has a given name."""

    def __init__(self, disk, name, use):
        super().__init__(disk, p20.A, {'use_cache': use, 'version': 'latest', 'commit': None})
        self.name = name

    def effect(self, ev, e):
        n = e.node
        if e.kind == 'call' and n is not None and n.op == 'call' and vq.bname(n) == '_download_file':
            url, p = ev.ev(vq.arg(n, 'url', 0)), self.path(ev.ev(vq.arg(n, 'local_path', 1)))
            self.disk.put(p, f'first.csv\n{self.name}\nlast.csv\n' if url.endswith('model_files.txt') else f'text of {url}')
            return None
        return super().effect(ev, e)


def names(ctx, res, skipped):
    ip = ctx.interp(MOD + 'download_data_files', opaque=p20.OPAQUE, key='p20')
    where = next(e for e in ip.events).where().split(':')[0] + ':download_data_files'
    for use in (True, False):
        for nm in BAD + GOOD:
            d = p20.Disk()
            outside = set()
            d.hook = lambda d, out=outside: out.update(p for p in d.files if not normal(p).is_relative_to(p20.ROOT) or normal(p) == p20.ROOT)
            m = Listed(d, nm, use)
            t = Trace(ip, m.leaf, m.effect, strict=True)
            try:
                t.run()
            except (Undecided, Raised) as exc:
                skipped.append(f'name {nm!r}: {exc}')
                continue
            res.check('inside', not outside, f'name {nm!r}', where, f'{", ".join(str(normal(p)) for p in outside)} is written, outside of the data directory')
            if nm in GOOD:
                res.check('listed', t.raised is None and p20.ROOT / nm in d.files, f'name {nm!r}', where, f'the file {nm!r} is not downloaded')
            elif t.raised is None and nm != '..':
                ok = all(normal(p).is_relative_to(p20.ROOT) for p in d.files)
                res.check('inside', ok, f'name {nm!r} is accepted', where, 'a name outside of the data directory is used')


def writers(ctx, res, skipped):
    """Functions that write a file write the one they are given."""
    for fn, par in (('_download_file', 'local_path'), ('save_cache', 'cache_file')):
        ip = ctx.interp(MOD + fn, opaque=('Logger',), key='p19w')
        given = PurePosixPath('/data/a/b.csv')
        for e in ip.events:
            n = e.node
            if e.kind != 'call' or n is None or n.op != 'call':
                continue
            nm = vq.bname(n)
            mk = nm in ('mkdir', 'makedirs')
            if nm in ('open', 'write_text', 'write_bytes', 'touch', 'unlink', 'rmdir', 'urlretrieve', 'copyfileobj') or mk or nm in ('replace', 'rename') and vq.xcall(n, nm):
                d = p20.Disk()
                m = p20.Model(d, '', {par: str(given)})
                p = vq.recv(n)
                if vq.xcall(n, nm) or p is None:
                    p = n.args[1][-1 if nm in ('replace', 'rename') else 0]
                try:
                    if nm == 'open' and not any(x in m.opened(Trace(ip, m.leaf, m.effect), n).mode for x in 'wax+'):
                        continue
                    v = normal(Trace(ip, m.leaf, m.effect).ev(p))
                except (Undecided, Raised) as exc:
                    skipped.append(f'{fn}: {exc}')
                    continue
                res.check('inside', v.is_relative_to(given.parent), f'{fn} of {given}', e.where(), f'{fn} writes {v} instead of {given}')


# -- requests -------------------------------------------------------------------------
def interps(ctx):
    out = []
    for q in ENTRY:
        try:
            out.append(ctx.interp(MOD + q, opaque=('Logger', 'get_api_repo_url', 'get_raw_repo_url', 'get_dlml_data_dir', 'tqdm'), key='p19'))
        except KeyError:
            continue
    return out


def is_request(n):
    if n is None or n.op != 'call':
        return False
    nm = vq.bname(n)
    if nm not in VERBS:
        return False
    full = str(vq.callee(n)[1])
    if vq.xcall(n, *VERBS) and full.startswith(('requests', 'urllib', 'httpx')):
        return True
    r = vq.recv(n)
    return r is not None and vq.xcall(r, 'Session', 'session', 'Client')


def requests(ctx, res, skipped):
    seen = set()
    for ip in interps(ctx):
        reqs = [e for e in ip.events if e.kind == 'call' and is_request(e.node)]
        for e in reqs:
            if (e.where(), 't') not in seen:
                seen.add((e.where(), 't'))
                kw = dict(e.node.args[2])
                t = kw.get('timeout')
                if t is None and any(k in ('**', None) or getattr(k, 'op', '') == 'dstar' for k, _v in e.node.args[2]):
                    skipped.append(f'time limit of {e.where()}')
                else:
                    res.check('timeout', t is not None and not is_const(t, None) and not (t.op == 'tuple' and any(is_const(x, None) for x in t.args)), 'request', e.where(),
                              'the request has no time limit')
            # the status is checked before the answer is used
            r = e.node
            checks = [x for x in ip.events if x.kind == 'call' and x.node is not None and vq.mcall(x.node, 'raise_for_status') and vq.recv(x.node) is r]
            uses = {}
            for x in ip.events:
                for y in vq.walk(x.node) if x.node is not None else ():
                    if y.op == 'attr' and y.args[0] is r and y.args[1] in BODY:
                        uses.setdefault((x.where(), y.args[1]), x)
                if x.value is not None and hasattr(x.value, 'op'):
                    for y in vq.walk(x.value):
                        if y.op == 'attr' and y.args[0] is r and y.args[1] in BODY:
                            uses.setdefault((x.where(), y.args[1]), x)
            for (w, a), x in uses.items():
                if (e.where(), w, a) in seen:
                    continue
                seen.add((e.where(), w, a))
                before = [c for c in checks if c.seq < x.seq and covers(c, x, e)]
                by_guard = any(y.op == 'attr' and y.args[0] is r and y.args[1] in ('ok', 'status_code') for g, _p, _k in x.guards for y in vq.walk(g))
                res.check('status', bool(before) or by_guard, f'{a} of an answer', w, f'{a} is used before the status of the answer has been checked')


def covers(c, x, e):
    """Whether the check is done whenever the answer is used."""
    have = {(g, p) for g, p, _k in x.guards} | {(g, p) for g, p, _k in e.guards}
    return all((g, p) in have for g, p, _k in c.guards)


# -- token ----------------------------------------------------------------------------
def token(ctx, res, skipped):
    seen = set()
    for ip in interps(ctx):
        src = set()
        for e in ip.events:
            for r in (e.node, e.value, e.target):
                if r is not None and hasattr(r, 'op'):
                    src |= {x for x in vq.walk(r) if is_token(x)}
        if not src:
            continue
        holders = set(src)

        def tainted(n, holders=holders):
            return n is not None and hasattr(n, 'op') and any(x in holders for x in carried(n))

        changed = True
        while changed:
            changed = False
            for b, items in ip.stores.items():
                if b not in holders and any(tainted(v) for _k, v, *_ in items):
                    holders.add(b)
                    changed = True
            for b, items in ip.appends.items():
                if b not in holders and any(tainted(v) for _k, v, *_ in items):
                    holders.add(b)
                    changed = True
        for e in ip.events:
            n = e.node
            if e.kind == 'raise':
                if tainted(n):
                    res.bad('token', 'exception', e.where(), 'the token is part of an exception')
                continue
            if e.kind != 'call' or n is None or n.op != 'call' or e.where() in seen:
                continue
            nm = vq.bname(n)
            if is_request(n):
                seen.add(e.where())
                kw = dict(n.args[2])
                url = kw.get('url', n.args[1][-1 if nm == 'request' and n.args[1] else 0] if n.args[1] else None)
                for k, v in n.args[2]:
                    if tainted(v) and k != 'headers':
                        res.bad('token', 'request', e.where(), f'the token is sent as {k}')
                if url is None or tainted(url):
                    if url is not None:
                        res.bad('token', 'request', e.where(), 'the token is part of the URL')
                    continue
                h = kw.get('headers', n.args[1][2] if len(n.args[1]) > 2 else None)
                if h is not None and tainted(h):
                    api = any(vq.bname(x) == 'get_api_repo_url' for x in starts(url) if x.op == 'call')
                    other = [x for x in starts(url) if not (x.op == 'call' and vq.bname(x) == 'get_api_repo_url')]
                    if other and not api and any(x.op in ('param', 'unknown', 'elem', 'index') for x in other):
                        skipped.append(f'URL {show(url, 3)}')
                        continue
                    res.check('token', api and not other, 'request', e.where(), f'the token is sent to {show(url, 3)}, which is not the API')
                else:
                    res.check('token', True, 'request', e.where(), '')
                continue
            if nm in SINKS and any(tainted(x) for x in n.args[1]) | any(tainted(x) for _k, x in n.args[2]):
                seen.add(e.where())
                res.bad('token', nm, e.where(), f'the token is passed to {nm}')


def carried(n):
    """Nodes whose value may be part of a value; answers of requests and conditions do not carry what they were given."""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x is None or not hasattr(x, 'op') or x in seen:
            continue
        seen.add(x)
        if is_request(x) or x.op == 'cmp':
            continue
        stack = list(x.args[1:] if x.op == 'ite' else x.args)
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                stack.extend(y)
            else:
                todo.append(y)
    return seen


def is_token(n):
    if n.op == 'call' and vq.bname(n) in ('get', 'getenv', 'pop') and n.args[1] and is_const(n.args[1][0]) and str(cval(n.args[1][0])).endswith('TOKEN'):
        return True
    return n.op == 'index' and is_const(n.args[1]) and str(cval(n.args[1])).endswith('TOKEN')


def starts(url):
    """Nodes that give the beginning of a text."""
    if url.op == 'fstr':
        for x in url.args:
            if isinstance(x, str) and not x:
                continue
            return starts(x) if not isinstance(x, str) else [url]
    if url.op == 'binop' and url.args[0] == '+':
        return starts(url.args[1])
    if url.op == 'ite':
        return [*starts(url.args[1]), *starts(url.args[2])]
    if url.op == 'phi':
        return [y for x in url.args for y in starts(x)]
    return [url]


__all__ = ['NO', 'run']
