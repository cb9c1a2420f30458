"""Execution events of the code under test (sys.monitoring), used as interruption and
scheduling points.  An event site is (module path:function:kind:line-in-function)."""
import os
import sys

from . import seams

mon = sys.monitoring
TOOL = 4
E = mon.events
_skip = {'acquire', 'release', '__enter__', '__exit__', 'close', 'notify', 'notify_all'}


def rel(fn):
    return fn[len(seams.PKG):]


def site(code, line, kind):
    return '%s:%s:%s:%d' % (rel(code.co_filename), code.co_qualname, kind, line - code.co_firstlineno)


class Injector:
    """Raises `exc` at the nth hit of an event site (or at the nth event overall).

    Interrupts arrive where CPython delivers them: at function entry, after a call into C
    returns, on a backward jump.  Allocation failures arrive when C code is called.
    Collects counts of sites when `target` is None."""

    def __init__(self, target=None, nth=1, exc='KI', collect=False):
        self.target, self.nth, self.exc = target, nth, exc
        self.collect = collect
        self.counts = {}
        self.hits = 0
        self.fired = False
        self.on = False
        self.pending = None

    def _ev(self, code, off, kind):
        if not self.on or self.fired:
            return
        if kind == 'entry':
            line = code.co_firstlineno
        else:
            line = _line(code, off)
        s = site(code, line, kind)
        if self.collect:
            self.counts[s] = self.counts.get(s, 0) + 1
            return
        if s == self.target:
            self.hits += 1
            if self.hits == self.nth:
                self.fired = True
                self.on = False
                raise (KeyboardInterrupt() if self.exc == 'KI' else seams.InjectedMemoryError('simulated'))

    def start(self, code, off):
        self.pending = None
        if not seams.is_target(code.co_filename):
            return mon.DISABLE
        self._ev(code, off, 'entry')

    def call(self, code, off, fn, arg0):
        self.pending = None
        if not seams.is_target(code.co_filename):
            return mon.DISABLE
        if hasattr(fn, '__code__') or getattr(fn, '__name__', '') in _skip:
            return
        self._ev(code, off, 'call')

    def cret(self, code, off, fn, arg0):
        self.pending = None
        if not seams.is_target(code.co_filename) or getattr(fn, '__name__', '') in _skip:
            return
        self._ev(code, off, 'cret')

    def jump(self, code, off, dst):
        # An exception raised by a JUMP callback skips the finally blocks around it (CPython
        # 3.12), which no real interrupt does: raise from the line event at the loop's head.
        if not seams.is_target(code.co_filename):
            return mon.DISABLE
        self.pending = (code, off, _line(code, dst)) if dst < off else None

    def line(self, code, line):
        if not seams.is_target(code.co_filename):
            return mon.DISABLE
        pending, self.pending = self.pending, None
        if pending and pending[0] is code and pending[2] == line:
            self._ev(code, pending[1], 'jump')

    def __enter__(self):
        mon.use_tool_id(TOOL, 'sim-inject')
        mon.register_callback(TOOL, E.PY_START, self.start)
        mon.register_callback(TOOL, E.CALL, self.call)
        mon.register_callback(TOOL, E.C_RETURN, self.cret)
        mon.register_callback(TOOL, E.JUMP, self.jump)
        mon.register_callback(TOOL, E.LINE, self.line)
        mon.set_events(TOOL, E.PY_START | E.CALL | E.JUMP | E.LINE)
        self.on = True
        return self

    def __exit__(self, *a):
        self.on = False
        mon.set_events(TOOL, 0)
        for e in (E.PY_START, E.CALL, E.C_RETURN, E.JUMP, E.LINE):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)


_lines = {}


def _line(code, off):
    t = _lines.get(code)
    if t is None:
        t = _lines[code] = [(a, b, l) for a, b, l in code.co_lines() if l is not None]
    for a, b, l in t:
        if a <= off < b:
            return l
    return code.co_firstlineno
