"""Findings about the form of the code that following the code can overrule."""

from __future__ import annotations

from ..ceval import Raised, Undecided
from ..trace import Stopped


class Counted:
    """A result that counts what is found."""

    def __init__(self, res):
        self.res, self.n, self.found = res, 0, 0

    def check(self, rid, cond, construct, where, msg):
        self.n += 1
        self.found += not cond
        return self.res.check(rid, cond, construct, where, msg)

    def bad(self, rid, construct, where, msg):
        self.check(rid, False, construct, where, msg)

    def ok(self, rid, instance):
        self.n += 1
        self.res.ok(rid, instance)

    def rule(self, *_a):
        pass

    @property
    def analysed(self):
        return self.res.analysed


def follow(ctx, res, functions, skipped):
    """Whether following the code decides everything and finds nothing."""
    c, left = Counted(res), []
    for f in functions:
        n = c.n
        try:
            f(ctx, c, left)
        except (Undecided, Stopped) as exc:
            left.append(f'{f.__name__}: {exc}')
        except Raised as exc:
            left.append(f'{f.__name__}: {exc.name} is raised')
        except Exception as exc:  # noqa: BLE001
            left.append(f'{f.__name__}: {type(exc).__name__} {exc}')
        if c.n == n:
            left.append(f'{f.__name__}: nothing is decided')
    skipped += left
    return not c.found and not left


class Backed:
    """What is found about the form of code that is proved to be right by following it is no violation."""

    def __init__(self, res, proved):
        self.res, self.proved = res, proved

    @property
    def analysed(self):
        return self.res.analysed

    def rule(self, *a):
        self.res.rule(*a)

    def ok(self, *a):
        self.res.ok(*a)

    def bad(self, rid, construct, where, msg):
        if self.proved.get(rid):
            self.res.analysed.setdefault('another_form', []).append(f'{rid}: {construct}: {msg} @ {where}')
        else:
            self.res.bad(rid, construct, where, msg)

    def check(self, rid, cond, construct, where, msg):
        if cond:
            self.res.ok(rid, f'{construct} @ {where}')
        else:
            self.bad(rid, construct, where, msg)
        return cond
