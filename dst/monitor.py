"""Yield and fault points at every executed source line of skfolio.

Uses sys.monitoring LINE events restricted to the code objects of skfolio, so no
change of the repository is needed. A thread takes part only if it has a context.
"""

import os
import sys
import threading

from dst import boot

TOOL = 4
_tls = threading.local()


class Injected:
    """Marker mixed into injected exceptions so that the harness recognises them."""


class InjectedInterrupt(Injected, KeyboardInterrupt):
    pass


class InjectedMemoryError(Injected, MemoryError):
    pass


class InjectedError(Injected, RuntimeError):
    pass


class InjectedValueError(Injected, ValueError):
    pass


EXC = {
    "interrupt": InjectedInterrupt,
    "memory": InjectedMemoryError,
    "error": InjectedError,
    "value": InjectedValueError,
}


def is_injected(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        if isinstance(exc, Injected):
            return True
        seen.add(id(exc))
        exc = exc.__cause__ or exc.__context__
    return False


class Runaway(BaseException):
    """An operation passed far more source lines than any operation needs."""


class LineContext:
    """Counts executed skfolio lines of one thread; may raise at a given count."""

    MAX = 8_000_000

    def __init__(self, at=None, exc="interrupt", scheduler=None, ident="main", record=False):
        self.lines = 0
        self.sites = set() if record else None
        self.firsts = []
        self.at = at
        self.exc = exc
        self.fired = None
        self.scheduler = scheduler
        self.ident = ident

    def on_line(self, code, line):
        self.lines += 1
        if self.lines > self.MAX:
            raise Runaway(f"{self.lines} source lines")
        if self.sites is not None and (id(code), line) not in self.sites:
            self.sites.add((id(code), line))
            self.firsts.append(self.lines)
        if self.at is not None and self.lines >= self.at and self.fired is None and interruptible(code, line):
            self.fired = f"{os.path.relpath(code.co_filename, boot.SRC)}:{line}"
            raise EXC[self.exc](f"injected at {self.fired}")
        if self.scheduler is not None:
            self.scheduler.step(code, line)


    @property
    def extent(self):
        """Number of lines passed, and when each distinct line was first passed."""
        return [self.lines, self.firsts]


def interruptible(code, line):
    """False at try/with headers and while clean-up code is running."""
    if line in boot.HEADS.get(code.co_filename, ()):
        return False
    f = sys._getframe(2)
    while f is not None:
        lines = boot.CLEANUP.get(f.f_code.co_filename)
        if lines and f.f_lineno in lines:
            return False
        f = f.f_back
    return True


def _on_line(code, line):
    ctx = getattr(_tls, "ctx", None)
    if ctx is not None:
        ctx.on_line(code, line)


def install():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    for code in boot.CODES:
        mon.set_local_events(TOOL, code, mon.events.LINE)


def current():
    return getattr(_tls, "ctx", None)


class watching:
    """``with watching(ctx):`` routes line events of this thread to ``ctx``."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.old = current()
        _tls.ctx = self.ctx
        return self.ctx

    def __exit__(self, *exc):
        _tls.ctx = self.old
        return False
