"""Deterministic thread scheduler.

Client threads are real threads, but only the one holding the baton runs; the baton moves
at points the simulator owns: every executed line of pyrtlib, every lock operation of
pyrtlib, entry to/exit from every netCDF call, every simulated socket operation.  Which
thread continues is decided by a seeded strategy (explore) or a recorded trace (replay).
"""
import sys
import _thread
import threading
import random

from . import seams
from .seams import SimAbort, SimDeadlock, real_allocate

mon = sys.monitoring
E = mon.events
TOOL = 3


class T:
    __slots__ = ('i', 'fn', 'ident', 'wake', 'state', 'blocked_on', 'timed', 'exc', 'timeout_fired')

    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.ident = None
        self.wake = real_allocate()
        self.wake.acquire()
        self.state = 'ready'
        self.blocked_on = None
        self.timed = False
        self.timeout_fired = False
        self.exc = None


class Sched:
    def __init__(self, strategy, cap=3_000_000, lines=True):
        self.strategy = strategy
        self.ts = []
        self.by_ident = {}
        self.n = 0
        self.cap = cap
        self.trace = []            # (event number, thread, preempted or forced) of every hand-over
        self.sites = set()         # sites at which a preemption happened
        self.abort = None
        self.done = real_allocate()
        self.done.acquire()
        self.cur = None
        self.lines = lines
        self.issues = []
        self.active_nc = {}
        self.preempt = 0
        self.log = []

    # ------------------------------------------------------------------ queries
    def manages(self, ident):
        return ident in self.by_ident

    def me(self):
        return self.by_ident[_thread.get_ident()]

    def ready(self):
        return [t for t in self.ts if t.state == 'ready']

    # ------------------------------------------------------------------ switching
    def _handover(self, t, nxt, how):
        self.trace.append((self.n, nxt.i, how))
        self.cur = nxt
        nxt.wake.release()
        t.wake.acquire()
        if self.abort is not None:
            raise self.abort
        self.cur = t

    def point(self, site):
        if self.abort is not None:
            raise self.abort
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        self.n += 1
        if self.n > self.cap:
            self._abort(SimAbort('step budget'), 'no progress within %d steps' % self.cap)
            raise self.abort
        k = self.strategy.decide(self.n, site, t.i, self.ts)
        if k is not None and k != t.i:
            nxt = self.ts[k]
            if nxt.state == 'ready':
                self.preempt += 1
                self.sites.add(site)
                self._handover(t, nxt, 'p')

    def block(self, lock, timed=False):
        """Current thread cannot take `lock`. Returns True to retry, False on timeout."""
        t = self.me()
        t.state, t.blocked_on, t.timed, t.timeout_fired = 'blocked', lock, timed, False
        r = self.ready()
        if not r:
            # a timed wait ends when nothing else can run
            tw = [x for x in self.ts if x.state == 'blocked' and x.timed]
            if tw:
                x = tw[0]
                x.state, x.timeout_fired = 'ready', True
                r = [x]
            else:
                self._abort(SimDeadlock('deadlock'), 'deadlock: every thread waits for a lock')
                t.state = 'ready'
                raise self.abort
        if r[0] is not t:
            self._handover(t, self._forced(r), 'f')
        t.blocked_on = None
        return not t.timeout_fired

    def unblock(self, lock):
        for t in self.ts:
            if t.state == 'blocked' and t.blocked_on is lock:
                t.state = 'ready'

    def _forced(self, ready):
        k = self.strategy.forced(self.n, [t.i for t in ready])
        return self.ts[k]

    def _abort(self, exc, why):
        if self.abort is None:
            self.abort = exc
            self.issues.append(why)

    # ------------------------------------------------------------------ netCDF library
    def nc(self, phase, event, name):
        me = _thread.get_ident()
        if me not in self.by_ident:
            return
        if phase == 'enter':
            self.point(('nc:' + event, 0))
            others = [v for k, v in self.active_nc.items() if k != me]
            if others:
                self.issues.append(
                    'two threads inside the netCDF library, which is not thread-safe '
                    '(crashes the interpreter): %s of %s while %s' % (event, name, others[0]))
            self.active_nc[me] = '%s of %s' % (event, name)
            self.point(('nc-in:' + event, 0))
        else:
            try:
                self.point(('nc-out:' + event, 0))
            finally:
                self.active_nc.pop(me, None)

    # ------------------------------------------------------------------ running
    def _line(self, code, line):
        fn = code.co_filename
        if not seams.is_target(fn):
            return mon.DISABLE
        if _thread.get_ident() in self.by_ident:
            self.point((fn[len(seams.PKG):] + ':' + code.co_qualname, line - code.co_firstlineno))

    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.wake.acquire()
        self.cur = t
        try:
            if self.abort is None:
                t.fn()
        except (SimAbort, SimDeadlock):
            pass
        except BaseException as e:          # harness error: client functions catch their own
            t.exc = e
        t.state = 'done'
        del self.by_ident[t.ident]
        r = self.ready()
        if not r:
            b = [x for x in self.ts if x.state == 'blocked']
            if b and self.abort is None:
                tw = [x for x in b if x.timed]
                if tw:
                    tw[0].timeout_fired = True
                    r = [tw[0]]
                else:
                    self._abort(SimDeadlock('deadlock'), 'deadlock: a lock is never released')
            if b and not r:
                r = b
            for x in r:
                x.state = 'ready'
        if r:
            nxt = self._forced(r) if self.abort is None else r[0]
            self.trace.append((self.n, nxt.i, 'f'))
            nxt.wake.release()
        else:
            self.done.release()

    def run(self, fns, wall=100):
        self.ts = [T(i, f) for i, f in enumerate(fns)]
        threads = []
        imp = sys.modules['_frozen_importlib']._ModuleLock
        saved = (imp.acquire, imp.release)
        imp.acquire, imp.release = _ml_acquire, _ml_release
        old_nc = seams.H.nc
        seams.H.sched = self
        seams.H.nc = self.nc if old_nc is None else old_nc
        if self.lines:
            mon.use_tool_id(TOOL, 'sim-sched')
            mon.register_callback(TOOL, E.LINE, self._line)
            mon.set_events(TOOL, E.LINE)
            mon.restart_events()
        try:
            for t in self.ts:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                threads.append(th)
                th.start()
            while any(t.ident is None for t in self.ts):
                pass
            first = self._forced(self.ts)
            self.trace.append((0, first.i, 'f'))
            first.wake.release()
            if not self.done.acquire(timeout=wall):
                raise RuntimeError('scheduler wall timeout (a thread blocks outside the simulation)')
            for th in threads:
                th.join(10)
        finally:
            if self.lines:
                mon.set_events(TOOL, 0)
                mon.register_callback(TOOL, E.LINE, None)
                mon.free_tool_id(TOOL)
            seams.H.sched = None
            seams.H.nc = old_nc
            imp.acquire, imp.release = saved
        for t in self.ts:
            if t.exc is not None:
                raise t.exc


# cooperative import-system locks -------------------------------------------------
def _ml_acquire(self):
    me = _thread.get_ident()
    s = seams.H.sched
    while True:
        o = self.__dict__.get('_so')
        if o is None or o == me:
            break
        if s is not None and s.manages(me):
            s.block(self)
        else:
            raise SimDeadlock('import lock')
    self.__dict__['_so'] = me
    self.__dict__['_sc'] = self.__dict__.get('_sc', 0) + 1
    return True


def _ml_release(self):
    c = self.__dict__.get('_sc', 0) - 1
    self.__dict__['_sc'] = c
    if c <= 0:
        self.__dict__['_so'] = None
        self.__dict__['_sc'] = 0
        s = seams.H.sched
        if s is not None:
            s.unblock(self)


# strategies -------------------------------------------------------------------------
class Strategy:
    def forced(self, n, ready):
        return ready[self.rng.randrange(len(ready))]


class Random(Strategy):
    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self._next()

    def _next(self):
        # distance to the next preemption: geometric, drawn once per preemption
        import math
        u = self.rng.random()
        self.left = 1 + int(math.log(max(u, 1e-12)) / math.log(1 - self.p)) if self.p < 1 else 1

    def decide(self, n, site, cur, ts):
        self.left -= 1
        if self.left > 0:
            return None
        self._next()
        r = [t.i for t in ts if t.state == 'ready' and t.i != cur]
        return r[self.rng.randrange(len(r))] if r else None


class Hot(Strategy):
    """Preempt at chosen code sites only."""

    def __init__(self, rng, sites, p, base=0.0):
        self.rng, self.sites, self.p = rng, set(sites), p
        self.base = Random(rng, base) if base > 0 else None

    def decide(self, n, site, cur, ts):
        if site in self.sites:
            if self.rng.random() < self.p:
                r = [t.i for t in ts if t.state == 'ready' and t.i != cur]
                return r[self.rng.randrange(len(r))] if r else None
        if self.base is not None:
            return self.base.decide(n, site, cur, ts)
        return None


class Park(Strategy):
    """Stops a thread where it has just stored something all threads see, and lets the others
    run until one of them comes to the same place; one place after another. `groups` are the
    sites by function."""

    def __init__(self, rng, groups, p, patience=4000):
        self.rng, self.p, self.patience = rng, p, patience
        self.groups = [frozenset(g) for g in groups]
        self.parked = None
        self._aim(0)

    def _aim(self, n):
        self.target = self.groups[self.rng.randrange(len(self.groups))]
        self.since = n
        self.parked = None

    def decide(self, n, site, cur, ts):
        if self.parked is not None and ts[self.parked].state != 'ready':
            self._aim(n)
        if site not in self.target:
            if self.parked is None and n - self.since > self.patience:
                self._aim(n)
            return None
        if self.parked is None or self.parked == cur:
            if self.rng.random() < self.p:
                r = [t.i for t in ts if t.state == 'ready' and t.i != cur]
                if r:
                    self.parked = cur
                    return r[self.rng.randrange(len(r))]
        elif self.rng.random() < .4:
            k = self.parked
            if self.rng.random() < .5:
                self.parked = cur          # the two change places
            else:
                self._aim(n)
            return k
        return None

    def forced(self, n, ready):
        r = [i for i in ready if i != self.parked]
        if not r:
            self._aim(n)
            r = ready
        return r[self.rng.randrange(len(r))]


class PCT(Strategy):
    """Random priorities with d priority-change points among ~n_est events."""

    def __init__(self, rng, nthreads, d, n_est):
        self.rng = rng
        self.prio = list(range(nthreads))
        rng.shuffle(self.prio)
        self.change = sorted(rng.randrange(1, max(2, n_est)) for _ in range(d))
        self.low = -1

    def decide(self, n, site, cur, ts):
        while self.change and n >= self.change[0]:
            self.change.pop(0)
            self.prio[cur] = self.low
            self.low -= 1
        best, bi = None, None
        for t in ts:
            if t.state == 'ready' and (best is None or self.prio[t.i] > best):
                best, bi = self.prio[t.i], t.i
        return bi

    def forced(self, n, ready):
        return max(ready, key=lambda i: self.prio[i])


class Replay(Strategy):
    """Repeats the recorded decisions. Right after a preemption point a thread can still
    stop by itself (to wait, or at its end) under the same event number: the two kinds of
    decision are kept apart."""

    def __init__(self, trace):
        self.m = {}
        for n, k, how in trace:
            self.m.setdefault((n, how), []).append(k)

    def decide(self, n, site, cur, ts):
        q = self.m.get((n, 'p'))
        if not q:
            return None
        k = q[0]
        if k < len(ts) and ts[k].state == 'ready':
            q.pop(0)
            return k
        return None

    def forced(self, n, ready):
        q = self.m.get((n, 'f'))
        if q and q[0] in ready:
            return q.pop(0)
        return ready[0]


def make_strategy(spec, nthreads):
    if spec['kind'] == 'replay':
        return Replay(spec['trace'])
    rng = random.Random(spec['seed'])
    if spec['kind'] == 'rand':
        return Random(rng, spec['p'])
    if spec['kind'] == 'hot':
        return Hot(rng, [tuple(s) for s in spec['sites']], spec['p'], spec.get('base', 0.0))
    if spec['kind'] == 'park':
        return Park(rng, [[tuple(x) for x in g] for g in spec['groups']], spec['p'])
    if spec['kind'] == 'pct':
        return PCT(rng, nthreads, spec['d'], spec['n_est'])
    raise ValueError(spec)


# catalogue ---------------------------------------------------------------------------
MUTATE = {'append', 'extend', 'insert', 'update', 'clear', 'pop', 'popitem', 'setdefault', 'remove', 'add', 'fill', 'sort'}


def shared_stores(code):
    """Sites of the lines that may write to something other threads see (attributes of classes,
    modules and of objects held by others, global names and containers), and of the
    lines after them. Only a hint where to switch."""
    import dis
    lines, prev, cur, outer = [], None, None, False
    hit = set()
    for ins in dis.get_instructions(code):
        ln = ins.positions.lineno if ins.positions else None
        if ln is not None and ln != cur:
            cur, outer = ln, False
            if ln not in lines:
                lines.append(ln)
        op = ins.opname
        if op == 'LOAD_GLOBAL' or op == 'LOAD_DEREF' or op == 'LOAD_FAST' and ins.argval == 'cls':
            outer = True
        if op in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
            hit.add(cur)
        elif op in ('STORE_ATTR', 'DELETE_ATTR') and prev and (
                prev.opname in ('LOAD_GLOBAL', 'LOAD_DEREF', 'LOAD_ATTR') or prev.argval == 'cls'):
            hit.add(cur)
        elif op == 'LOAD_ATTR' and outer and ins.argval in MUTATE and prev.opname in ('LOAD_GLOBAL', 'LOAD_DEREF', 'LOAD_ATTR'):
            hit.add(cur)
        elif op in ('STORE_SUBSCR', 'DELETE_SUBSCR') and outer and 'self' not in str(prev.argval):
            hit.add(cur)
        if op not in ('CACHE', 'EXTENDED_ARG'):
            prev = ins
    lines.sort()
    name = code.co_filename[len(seams.PKG):] + ':' + code.co_qualname
    for ln in hit:
        if ln is None:
            continue
        i = lines.index(ln)
        for x in lines[i:i + 3]:
            yield (name, x - code.co_firstlineno)


def catalogue(ops):
    """Sites executed by a sample history: rare ones are places where shared state is
    touched once per operation (not in the per-line loops)."""
    from .world import World
    counts = {}
    codes = {}

    def line(code, ln):
        if not seams.is_target(code.co_filename):
            return mon.DISABLE
        codes[code] = None
        s = (code.co_filename[len(seams.PKG):] + ':' + code.co_qualname, ln - code.co_firstlineno)
        counts[s] = counts.get(s, 0) + 1
    w = World(keep=False)
    mon.use_tool_id(TOOL, 'sim-cat')
    mon.register_callback(TOOL, E.LINE, line)
    mon.set_events(TOOL, E.LINE)
    try:
        for i, o in enumerate(ops):
            w.call(i, o)
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, E.LINE, None)
        mon.free_tool_id(TOOL)
    rare = sorted(s for s, n in counts.items() if n <= 40)
    shared = sorted({s for c in codes for s in shared_stores(c) if s in counts})
    return {'rare': rare, 'shared': shared, 'events': max(1000, sum(counts.values()) // 3), 'all': len(counts)}


SAMPLE = [{'op': 'select1', 'cls': c, 'm': 'R20'} for c in 'HONL'] + [
    {'op': 'select1', 'cls': '3', 'm': 'R18'}, {'op': 'set_ll', 'cls': '3'},
    {'op': 'params', 'kind': 'w', 'd': 'd0', 'm': 'R20'}, {'op': 'params', 'kind': 'o', 'd': 'd1', 'm': 'R20'},
    {'op': 'merge', 'd': 'd2', 'src': ['d0', 'd1']}, {'op': 'setp', 'd': 'd2'},
    {'op': 'perturb', 'd': 'd3', 'what': ['gamma_a'], 'mode': 'max', 'i': 0},
    {'op': 'mk', 'x': 'x0', 'prof': ['low', 5, 1], 'frq': [22.2, 54.0], 'cloudy': True, 'absmdl': 'R20', 'o3': True},
    {'op': 'clouds', 'x': 'x0', 'prof': ['low', 5, 1]},
    {'op': 'exec', 'x': 'x0', 'bt': False},
    {'op': 'mk', 'x': 'x1', 'prof': ['low', 5, 1], 'frq': [22.2], 'amu': 'd2', 'rt': True, 'angles': [30.0]},
    {'op': 'sat', 'x': 'x1', 'v': False}, {'op': 'emis', 'x': 'x1', 'v': 0.5},
    {'op': 'exec', 'x': 'x1'}, {'op': 'models'}, {'op': 'clim', 'fn': 'gl_atm', 'arg': 0},
    {'op': 'ext_mk', 'x': 'x2'},
    {'op': 'ext_call', 'x': 'x2', 'fn': 'profile_extrapolation', 'lat': 30.0, 'month': 7, 'prof': ['low', 5, 1]}]
