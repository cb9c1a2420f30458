"""Process-wide state: what the library must leave as it found it, and settings of a user's
process that must not change its answers."""
import asyncio
import builtins
import csv
import decimal
import faulthandler
import gc
import hashlib
import http.client
import io
import locale
import logging
import os
import random
import resource
import shutil
import signal
import socket
import ssl
import sys
import tempfile
import threading
import time
import urllib.request
import warnings

SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1, signal.SIGCHLD]

RLIMITS = [resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_FSIZE, resource.RLIMIT_DATA,
           resource.RLIMIT_CPU, resource.RLIMIT_NPROC]
OTHERS = ['builtins', 'os', 'os.path', 'time', 'math', 'json', 'warnings', 'socket', 'ssl', 'zipfile', 'random', 'copy', 'datetime', 'numpy',
          'numpy.linalg', 'numpy.ma', 'scipy.interpolate', 'pandas', 'requests', 'urllib3', 'bs4', 'matplotlib.pyplot', 'threading', 'logging',
          'pickle', 'tempfile', 'shutil', 'http.client', 'urllib.parse', 'locale']
CLASSES = [('requests', 'Session'), ('requests', 'Response'), ('pandas', 'DataFrame'), ('pandas', 'Series'), ('zipfile', 'ZipFile'),
           ('http.client', 'HTTPConnection'), ('http.client', 'HTTPResponse'), ('bs4', 'BeautifulSoup'), ('threading', 'Thread')]


def _h(b):
    return hashlib.blake2b(b, digest_size=8).hexdigest()


def cwd():
    try:
        return os.getcwd()
    except OSError as e:
        return type(e).__name__


def snapshot():
    """Settings of this process that other code in it relies on."""
    import matplotlib
    import numpy as np
    import pandas as pd
    import requests.adapters
    import urllib3.util.connection
    from pandas._config import config as pc
    um = os.umask(0)
    os.umask(um)
    c = decimal.getcontext()
    return {
        'numpy error handling (np.seterr)': (tuple(sorted(np.geterr().items())), np.geterrcall()),
        'numpy print options': tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        'state of numpy.random': _h(repr([x if isinstance(x, (int, str, float)) else x.tobytes() for x in np.random.get_state()]).encode()),
        'state of random': _h(repr(random.getstate()).encode()),
        'warning filters': tuple(repr(f) for f in warnings.filters),
        'warnings.showwarning': id(warnings.showwarning),
        'working directory': cwd(),
        'environment variables': tuple(sorted(os.environ.items())),
        'locale': locale.setlocale(locale.LC_ALL),
        'umask': um,
        'time zone': (time.tzname, time.timezone),
        'signal handlers': tuple(repr(signal.getsignal(s)) for s in SIGNALS),
        'interval timers': signal.getitimer(signal.ITIMER_REAL)[0] != 0,
        'matplotlib rcParams': tuple(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))),
        'sys.path': tuple(sys.path),
        'sys.argv': tuple(sys.argv),
        'recursion limit': sys.getrecursionlimit(),
        'thread switch interval': sys.getswitchinterval(),
        'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'exception hooks': (id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook), id(sys.displayhook)),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'logging configuration': (logging.root.level, tuple(id(x) for x in logging.root.handlers), logging.root.manager.disable),
        'default socket time-out': socket.getdefaulttimeout(),
        'socket functions': (id(socket.socket), id(socket.getaddrinfo), id(socket.create_connection)),
        'default TLS verification': (id(ssl._create_default_https_context), id(ssl.create_default_context)),
        'global URL opener': id(urllib.request._opener),
        'urllib3 address families': id(urllib3.util.connection.allowed_gai_family),
        'requests defaults': (requests.adapters.DEFAULT_RETRIES, requests.adapters.DEFAULT_POOLBLOCK),
        'pandas options': tuple((k, repr(pc.get_option(k))) for k in sorted(pc._registered_options)
                                if k not in pc._deprecated_options),
        'decimal context': (c.prec, c.rounding),
        'blocked signals': tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        'directory of temporary files': tempfile.gettempdir(),
        'numpy buffer size': np.getbufsize(),
        'matplotlib colour maps': tuple(matplotlib.colormaps),
        'files behind the standard streams': tuple(_stat(n) for n in (0, 1, 2)),
        'default thread stack size': threading.stack_size(),
        'matplotlib backend': (matplotlib.rcParams._get('backend') if hasattr(matplotlib.rcParams, '_get') else None, matplotlib.is_interactive()),
        'resource limits': tuple(resource.getrlimit(x) for x in RLIMITS),
        'priority and processors': (os.getpriority(os.PRIO_PROCESS, 0), tuple(sorted(os.sched_getaffinity(0)))),
        'encoding of the standard streams': tuple((getattr(f, 'encoding', None), getattr(f, 'errors', None)) for f in (sys.stdin, sys.stdout, sys.stderr)),
        'import hooks': (tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), id(builtins.__import__)),
        'tracing': (sys.gettrace(), sys.getprofile()),
        'fault handler': faulthandler.is_enabled(),
        'limits of the interpreter': (sys.get_int_max_str_digits(), csv.field_size_limit(), http.client._MAXLINE, http.client._MAXHEADERS,
                                      http.client.HTTPConnection.debuglevel),
        'figures of the program': _figures(),
        'running threads': threading.active_count(),
        'loggers': {n: (x.level, x.disabled, x.propagate, sum(not isinstance(h, logging.NullHandler) for h in x.handlers))
                    for n, x in list(logging.root.manager.loggerDict.items()) if isinstance(x, logging.Logger)},
        'functions of other libraries': {(m, n): id(x) for m in OTHERS for n, x in list(vars(sys.modules.get(m, sys)).items())
                                         if callable(x) and not (m == 'netCDF4' or isinstance(x, type(sys)))},
        'methods of other libraries': {(m, c, n): id(x) for m, c in CLASSES for n, x in list(vars(getattr(sys.modules[m], c)).items())},
    }


def _stat(fd):
    try:
        s = os.fstat(fd)
        return s.st_dev, s.st_ino, os.get_inheritable(fd)
    except OSError as e:
        return e.errno


def _figures():
    import matplotlib.pyplot as plt
    if not plt.fignum_exists('user'):
        return ()
    f = [x.canvas.figure for x in matplotlib_managers() if x.canvas.figure.get_label() == 'user']
    return tuple((len(x.axes), tuple(len(a.lines) for a in x.axes)) for x in f)


def matplotlib_managers():
    from matplotlib._pylab_helpers import Gcf
    return Gcf.get_all_fig_managers()


def customise(rng):
    """A process whose settings are not the usual ones."""
    from .gen import ENVS
    for k, vs in ENVS:
        v = rng.choice(vs)
        if k not in ('cwd', 'stdout', 'path', 'argv', 'pandas', 'environ') and rng.random() < .6:
            apply(k, v)
    if rng.random() < .6:
        import matplotlib
        matplotlib.interactive(True)
    if rng.random() < .6:
        sys.setrecursionlimit(1777)


def changes(a, b):
    out = []
    for k in a:
        if isinstance(a[k], dict):
            # what was not there before belongs to nobody yet
            d = [n for n in a[k] if n in b[k] and a[k][n] != b[k][n]] + [n for n in a[k] if n not in b[k]]
            if d:
                out.append('%s changed (%s)' % (k, ', '.join(map(str, d[:3]))))
        elif a[k] != b[k]:
            out.append('%s changed%s' % (k, _what(a[k], b[k])))
    return out


def _what(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        try:
            x, y = [v for v in a if v not in b], [v for v in b if v not in a]
        except Exception:
            return ''
        if any(isinstance(v, int) and v > 1 << 30 for v in x + y):
            return ''
        return ' from %s to %s' % (str(x)[:90], str(y)[:90])
    if isinstance(a, int) and a > 1 << 30 or isinstance(a, str) and len(a) == 16:
        return ''
    return ' from %s to %s' % (str(a)[:90], str(b)[:90])


class _Quiet:
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


SCRATCH = []


def apply(k, v):
    """A user's program sets up its own process."""
    import numpy as np
    import pandas as pd
    if k == 'cwd':
        d = tempfile.mkdtemp(prefix='verif-cwd-')
        os.chdir(d)
        if v == 'root':
            os.chdir('/')
            os.rmdir(d)
        else:
            SCRATCH.append(d)
    elif k == 'tz':
        os.environ['TZ'] = v
        time.tzset()
    elif k == 'locale':
        locale.setlocale(locale.LC_ALL, v)
    elif k == 'umask':
        os.umask(v)
    elif k == 'environ':
        for n, x in v.items():
            if x is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = x
    elif k == 'npprint':
        np.set_printoptions(**v)
    elif k == 'pandas':
        for n, x in v.items():
            pd.set_option(n, x)
    elif k == 'seed':
        random.seed(v)
        np.random.seed(v)
    elif k == 'seterr':
        np.seterr(all=v)
    elif k == 'warnings':
        warnings.simplefilter(v)
    elif k == 'rc':
        import matplotlib.pyplot as plt
        plt.rcParams.update(v)
    elif k == 'figure':
        import matplotlib.pyplot as plt
        plt.figure('user', figsize=(1, 1), dpi=20).add_subplot().plot([v, 2])
    elif k == 'decimal':
        decimal.getcontext().prec = v
    elif k == 'gc':
        gc.enable() if v else gc.disable()
        if v:
            gc.set_threshold(v, 5, 5)
    elif k == 'switch':
        sys.setswitchinterval(v)
    elif k == 'stdout':
        sys.stdout = None if v == 'none' else io.TextIOWrapper(io.BytesIO(), encoding='ascii') if v == 'ascii' else _Quiet()
    elif k == 'logging':
        logging.root.setLevel(v)
        if not logging.root.handlers:
            logging.root.addHandler(logging.StreamHandler(_Quiet()))
    elif k == 'timeout':
        socket.setdefaulttimeout(v)
    elif k == 'argv':
        sys.argv = list(v)
    elif k == 'path':
        sys.path.insert(0, v)
    elif k == 'signal':
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.signal(signal.SIGTERM, _on_alarm)
    else:
        raise ValueError(k)


def _on_alarm(*a):
    pass


def via(how, fn):
    """Call fn from another thread or from a coroutine."""
    if how == 'thread':
        res = []

        def body():
            try:
                res.append(fn())
            except BaseException as e:
                res.append(e)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if isinstance(res[0], BaseException):
            raise res[0]
        return res[0]
    if how == 'loop':
        async def main():
            return fn()
        # a loop without a self-pipe thread or signal handling of its own
        loop = asyncio.new_event_loop()
        try:
            return loop.run_until_complete(main())
        finally:
            loop.close()
    return fn()


def cleanup():
    for d in SCRATCH:
        shutil.rmtree(d, ignore_errors=True)
    SCRATCH.clear()
