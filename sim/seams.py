"""Seams: everything nondeterministic or failing that pyrtlib touches is put behind
simulator-owned objects *before* pyrtlib is imported.

 - threading.Lock/RLock/Condition... created by pyrtlib code -> SimLock (cooperative)
 - netCDF4.Dataset -> SimDataset (proxy over the real library; fault and switch points)
 - numpy.loadtxt   -> wrapper with fault points
 - import-system module locks (only while a simulated schedule runs)
"""
import errno
import importlib.machinery
import os
import sys
import threading
import _thread

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'pyrtlib') + os.sep
TESTS = os.path.join(REPO, 'pyrtlib', 'tests') + os.sep

real_allocate = _thread.allocate_lock
real_Lock = threading.Lock
real_RLock = threading.RLock


class SimDeadlock(BaseException):
    """A thread waits for a lock nobody will ever release."""


class SimAbort(BaseException):
    """The simulator ends the run (budget exhausted, violation already found)."""


class InjectedMemoryError(MemoryError):
    pass


class Hooks:
    sched = None        # active scheduler (threads under control) or None
    nc = None           # callable(event, name) called around netCDF library calls
    loadtxt = None      # callable(name)
    depth = 0


H = Hooks()


# --------------------------------------------------------------------------- locks
class SimLock:
    """Cooperative replacement of Lock/RLock for locks created by the code under test."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = H.sched
        managed = s is not None and s.manages(me)
        if managed:
            s.point(('lock', 0))
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if managed:
                if not s.block(self, timed=timeout is not None and timeout >= 0):
                    return False
            else:
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock('lock is never released')
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
        s = H.sched
        if s is not None:
            s.unblock(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # protocol used by threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        st = (self.count, self.owner)
        self.count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[0]

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


def _from_pyrtlib():
    f = sys._getframe(2)
    while f is not None:
        n = f.f_globals.get('__name__', '')
        if n == 'threading' or n == __name__:
            f = f.f_back
            continue
        return f.f_code.co_filename.startswith(PKG)
    return False


def _lock(*a):
    return SimLock(False) if _from_pyrtlib() else real_allocate()


def _rlock(*a, **k):
    return SimLock(True) if _from_pyrtlib() else real_RLock()


# --------------------------------------------------------------------------- netCDF
class _Call:
    """Brackets one call into the netCDF library."""

    def __init__(self, event, name):
        self.event, self.name = event, name

    def __enter__(self):
        if H.nc is not None:
            H.nc('enter', self.event, self.name)

    def __exit__(self, *a):
        if H.nc is not None:
            H.nc('exit', self.event, self.name)


MEM = {}            # absolute path -> snapshot of a line-list file shipped with the package
OPEN = set()        # simulated data sets currently open
USE_MEM = [True]


class MemVar:
    """A variable of a data set served by the simulated storage."""

    def __init__(self, name, data, dims):
        self.name, self._data, self.dimensions = name, data, dims
        self.shape, self.dtype, self.ndim = data.shape, data.dtype, data.ndim
        self.size = data.size

    def __getitem__(self, k):
        import numpy as np
        if self.ndim == 0:
            return np.ma.array(self._data, copy=True)
        return np.ma.array(self._data[k], copy=True)

    def __len__(self):
        return len(self._data)


class MemGroup:
    def __init__(self, name, variables, groups):
        self.name = name
        self.variables = variables
        self.groups = groups


def snapshot(path):
    """Read a whole file of the package once, with the real library."""
    def grp(g):
        vs = {}
        for n, v in g.variables.items():
            data = v[...]
            vs[n] = MemVar(n, data, v.dimensions)
        return MemGroup(g.name, vs, {n: grp(x) for n, x in g.groups.items()})
    d = real_Dataset(path, mode='r')
    try:
        return grp(d)
    finally:
        d.close()


class SimVariable:
    def __init__(self, root, keys, name):
        d = object.__setattr__
        d(self, '_root', root)
        d(self, '_keys', keys)
        d(self, '_name', name)

    def _v(self):
        return self._root._node(self._keys).variables[self._name]

    def __getitem__(self, k):
        v = self._v()
        with _Call('read', self._root._path + ':' + self._name):
            return v[k]

    def __setitem__(self, k, val):
        self._v()[k] = val

    def __len__(self):
        return len(self._v())

    def __array__(self, *a, **k):
        import numpy as np
        return np.asarray(self[...], *a, **k)

    def __getattr__(self, n):
        v = self._v()
        if isinstance(v, MemVar) and not hasattr(v, n):
            self._root._materialise()
            v = self._v()
        return getattr(v, n)

    def __setattr__(self, n, val):
        self._root._materialise()
        setattr(self._v(), n, val)


class SimGroup:
    def __init__(self, root, keys):
        d = object.__setattr__
        d(self, '_root', root)
        d(self, '_keys', keys)

    @property
    def variables(self):
        return {k: SimVariable(self._root, self._keys, k)
                for k in self._root._node(self._keys).variables}

    @property
    def groups(self):
        return {k: SimGroup(self._root, self._keys + (k,))
                for k in self._root._node(self._keys).groups}

    def __getitem__(self, k):
        keys = self._keys
        parts = [x for x in k.split('/') if x]
        for x in parts[:-1]:
            keys = keys + (x,)
        node = self._root._node(keys)
        if parts and parts[-1] in node.groups:
            return SimGroup(self._root, keys + (parts[-1],))
        if parts and parts[-1] in node.variables:
            return SimVariable(self._root, keys, parts[-1])
        raise IndexError('%s not found in /' % k)

    def __getattr__(self, n):
        node = self._root._node(self._keys)
        if isinstance(node, MemGroup) and not hasattr(node, n):
            self._root._materialise()
            node = self._root._node(self._keys)
        return getattr(node, n)

    def __setattr__(self, n, v):
        self._root._materialise()
        setattr(self._root._node(self._keys), n, v)


real_Dataset = None


class SimDataset(SimGroup):
    """netCDF4.Dataset: the line-list files of the package come from a snapshot held by the
    simulator (or from the real library in 'real' runs), everything else from the real
    library; every open, read and close is a fault and switch point."""

    def __init__(self, filename, mode='r', *a, **k):
        d = object.__setattr__
        name = os.path.basename(str(filename))
        d(self, '_path', name)
        d(self, '_root', self)
        d(self, '_keys', ())
        d(self, '_mem', None)
        d(self, '_d', None)
        d(self, '_args', (filename, mode, a, k))
        key = os.path.abspath(str(filename))
        with _Call('open', name):
            if USE_MEM[0] and mode == 'r' and key in MEM:
                d(self, '_mem', MEM[key])
            else:
                d(self, '_d', real_Dataset(filename, mode, *a, **k))
        OPEN.add(id(self))

    def _node(self, keys):
        if id(self) not in OPEN:
            raise RuntimeError('NetCDF: Not a valid ID')
        n = self._mem if self._mem is not None else self._d
        for k in keys:
            n = n.groups[k]
        return n

    def _materialise(self):
        if self._mem is not None:
            f, mode, a, k = self._args
            object.__setattr__(self, '_d', real_Dataset(f, mode, *a, **k))
            object.__setattr__(self, '_mem', None)

    def isopen(self):
        return id(self) in OPEN

    def filepath(self, *a):
        return str(self._args[0])

    def close(self):
        # an error of close is reported after the handle is gone, as by the operating system
        done = False
        try:
            with _Call('close', self._path):
                done = True
                self._close()
        finally:
            if not done and id(self) in OPEN:
                self._close()

    def _close(self):
        if id(self) not in OPEN:
            raise RuntimeError('NetCDF: Not a valid ID')
        OPEN.discard(id(self))
        if self._d is not None:
            self._d.close()

    def __del__(self):
        OPEN.discard(id(self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return 'SimDataset(%s)' % self._path


NC_ERR = {
    'EMFILE': lambda n: OSError(errno.EMFILE, 'Too many open files', n),
    'EIO': lambda n: OSError(errno.EIO, 'Input/output error', n),
    'ENOENT': lambda n: FileNotFoundError(errno.ENOENT, 'No such file or directory', n),
    'EACCES': lambda n: PermissionError(errno.EACCES, 'Permission denied', n),
    'ESTALE': lambda n: OSError(errno.ESTALE, 'Stale file handle', n),
    'HDF': lambda n: OSError(-101, 'NetCDF: HDF error', n),
    'HDFREAD': lambda n: RuntimeError('NetCDF: HDF error'),
    'NOMEM': lambda n: InjectedMemoryError('simulated allocation failure'),
    'INT': lambda n: KeyboardInterrupt(),
}


# --------------------------------------------------------------------------- install
_installed = False


def install():
    """Install the seams and import pyrtlib from REPO. Returns nothing."""
    global _installed, real_Dataset
    if _installed:
        return
    _installed = True
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    import pandas  # noqa: F401
    import netCDF4
    import requests  # noqa: F401
    import bs4  # noqa: F401
    import sklearn.neighbors  # noqa: F401
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa: F401

    # matplotlib opens its font files on first use and keeps them open
    plt = matplotlib.pyplot
    plt.figure(figsize=(1, 1), dpi=20)
    plt.plot([1, 2], [1, 2], label='x')
    plt.legend()
    plt.xlabel('$km^{-1}$')
    plt.title('t')
    plt.tight_layout()
    plt.gcf().canvas.draw()
    plt.close('all')

    # laying out a figure that nobody renders takes most of the time of drawing it
    matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None
    matplotlib.figure.Figure.draw = lambda self, *a, **k: None

    real_Dataset = netCDF4.Dataset
    netCDF4.Dataset = SimDataset
    real_loadtxt = np.loadtxt

    def loadtxt(fname, *a, **k):
        if H.loadtxt is not None:
            H.loadtxt(os.path.basename(str(fname)))
        return real_loadtxt(fname, *a, **k)
    np.loadtxt = loadtxt

    threading.Lock = _lock
    threading.RLock = _rlock
    threading._allocate_lock = _lock
    threading._RLock = threading._RLock

    sys.meta_path.insert(0, Finder)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pyrtlib
    if not os.path.abspath(pyrtlib.__file__).startswith(REPO + os.sep):
        raise RuntimeError('pyrtlib is imported from %s, not from %s' % (pyrtlib.__file__, REPO))
    import pyrtlib.tb_spectrum  # noqa: F401
    import pyrtlib.absorption_model  # noqa: F401
    import pyrtlib.rt_equation  # noqa: F401
    import pyrtlib.utils  # noqa: F401
    import pyrtlib.weighting_functions  # noqa: F401
    import pyrtlib.uncertainty  # noqa: F401
    import pyrtlib.climatology  # noqa: F401
    import pyrtlib.climatology.extrapolation  # noqa: F401
    import pyrtlib.apiwebservices  # noqa: F401
    import pyrtlib.apiwebservices.erafive  # noqa: F401
    import pyrtlib.apiwebservices.wyomingupperair  # noqa: F401
    import pyrtlib.apiwebservices.igra2  # noqa: F401
    for root, _, files in os.walk(PKG):
        if root.startswith(TESTS.rstrip(os.sep)):
            continue
        for f in sorted(files):
            if f.endswith('.nc'):
                p = os.path.abspath(os.path.join(root, f))
                MEM[p] = snapshot(p)


def names():
    """Random names and random numbers drawn by the code under test repeat from run to run."""
    import random
    import uuid
    import numpy as np
    n = [0]

    def uuid4():
        n[0] += 1
        return uuid.UUID(int=(0x5EED << 100) + n[0], version=4)
    uuid.uuid4 = uuid4
    random.seed(20)
    np.random.seed(20)


_code = {}
OPT = [-1]          # optimisation level pyrtlib is compiled with (-1: that of the interpreter)


class Source(importlib.machinery.SourceFileLoader):
    """Loads pyrtlib from its source files, never from compiled leftovers."""

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        if p not in _code:
            _code[p] = self.source_to_code(self.get_data(p), p, _optimize=OPT[0])
        return _code[p]


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'pyrtlib' and not name.startswith('pyrtlib.'):
            return None
        sp = importlib.machinery.PathFinder.find_spec(name, path)
        if sp is not None and type(sp.loader) is importlib.machinery.SourceFileLoader:
            sp.loader = Source(sp.loader.name, sp.loader.path)
        return sp


def is_target(filename):
    return filename.startswith(PKG) and not filename.startswith(TESTS)


# --------------------------------------------------------------------------- faults
class FaultPlan:
    """Fires the faults attached to one operation; records what really fired."""

    def __init__(self, fault):
        self.f = fault
        self.fired = 0
        self.seen = 0

    def nc(self, phase, event, name):
        f = self.f
        if phase != 'enter' or f['event'] != event or f.get('match', '') not in name:
            return
        self.seen += 1
        if f['nth'] <= self.seen < f['nth'] + f.get('count', 1):
            self.fired += 1
            raise NC_ERR[f['exc']](name)

    def loadtxt(self, name):
        self.seen += 1
        if self.seen == self.f['nth']:
            self.fired += 1
            raise NC_ERR[self.f['exc']](name)


