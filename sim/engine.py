"""Run execution, the fresh-process oracle, and minimisation.

The process that imports this module keeps pyrtlib pristine (imported, never used); every
simulated run and every oracle program executes in a forked child."""
import gc
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import procenv, seams
from .seams import H, SimAbort, SimDeadlock
from .net import NET, SALT
from .era import ARC


# sites in these files are far from any code that restores a selection
DEEP = ('rt_equation.py:', '/rt_equation.py:')


class HarnessError(Exception):
    pass


class Quiet:
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def forked(fn, timeout=90):
    """Run fn() in a forked child; returns its result. Raises HarnessError on a crash."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            sys.stdout = Quiet()
            gc.disable()
            res = ('ok', fn())
        except BaseException:
            res = ('err', traceback.format_exc())
        try:
            data = pickle.dumps(res, protocol=5)
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return ('timeout', None)
    data = b''.join(buf)
    if not data:
        if os.WIFSIGNALED(st):
            return ('signal', os.WTERMSIG(st))
        raise HarnessError('child died without a result')
    kind, val = pickle.loads(data)
    if kind == 'err':
        raise HarnessError(val)
    return ('ok', val)


# ------------------------------------------------------------------------ oracle
_memo = {}
stats = {'oracle_runs': 0, 'oracle_hits': 0}


def fresh(program):
    """Outcome of the last operation of `program`, run in a fresh process without faults."""
    from .world import World
    key = json.dumps(program, sort_keys=True)
    if key in _memo:
        stats['oracle_hits'] += 1
        return _memo[key]
    stats['oracle_runs'] += 1

    def go():
        import numpy as np
        import warnings
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        w = World(keep=False)
        out = ('skip',)
        for i, o in enumerate(program):
            out = w.call(i, o)
        return out
    st, out = forked(go)
    if st != 'ok':
        raise HarnessError('oracle program %s: %s' % (st, key))
    if len(_memo) > 6000:
        _memo.clear()
    _memo[key] = out
    return out


def known_names(got, exp, prog):
    """Of the entries of a line list that a fresh one does not have, keep those which the
    list of another model has (leftovers); the others are no part of a list."""
    have = {n for n, _ in exp[1]}
    if all(n in have for n, _ in got[1]):
        return got
    from .gen import H2O, O2, O3
    c = prog[-1]['cls']
    for m in {'H': H2O, 'O': O2, '3': O3}[c]:
        r = fresh([{'op': 'select1', 'cls': c, 'm': m}, {'op': 'set_ll', 'cls': c}, {'op': 'll', 'cls': c}])
        if r[0] == 'ok':
            have |= {n for n, _ in r[1][1]}
    return ('d', [x for x in got[1] if x[0] in have])


# ------------------------------------------------------------------------ batches
def parts(o, prog, out):
    """Smaller calculations contained in one: (what, program, the part of the answer)."""
    from .world import ELEMENTWISE
    rng = random.Random(json.dumps(prog, sort_keys=True))
    k = o['op']
    last = prog[-1]
    if k == 'exec':
        at = next(i for i, p in enumerate(prog) if p['op'] == 'mk' and p['x'] == last['x'])
        mk = prog[at]
        if any(p['op'] == 'attr' and p['x'] == mk['x'] and p['n'] in ('frq', 'angles') for p in prog):
            return                           # a batch that was replaced later (see settings)
        nf, ang = len(mk['frq']), mk.get('angles')
        na = len(ang) if ang else 1
        for j, a in sorted({(nf - 1, na - 1), (rng.randrange(nf), rng.randrange(na))}):
            if nf * na == 1:
                return
            sub = list(prog)
            sub[at] = dict(mk, frq=[mk['frq'][j]], **({'angles': [ang[a]]} if ang else {}))
            for i, p in enumerate(sub):
                if p['op'] == 'emis' and p['x'] == last['x'] and isinstance(p['v'], list):
                    if len(p['v']) != nf:
                        break
                    sub[i] = dict(p, v=[p['v'][j]])
            else:
                yield 'frequency %d at angle %d of the batch' % (j, a), sub, lambda v, w, j=j, a=a: _row(v, w, j, a, nf)
    elif k == 'wf_gen':
        sets = [i for i, p in enumerate(prog) if p['op'] == 'wf_set' and p['x'] == last['x'] and p['attr'] == 'frequencies']
        if not sets or len(prog[sets[-1]]['v']) < 2:
            return
        at = sets[-1]
        j = rng.randrange(len(prog[at]['v']))
        sub = list(prog)
        sub[at] = dict(prog[at], v=[prog[at]['v'][j]])
        yield 'frequency %d of the batch' % j, sub, lambda v, w, j=j: [(('a', v[1][j:j + 1]), w)]
    else:
        if k == 'ext_call' and last['fn'] not in ('profile_extrapolation',) and len(last['h']) > 1:
            n = len(last['h'])
            for j in sorted({n - 1, rng.randrange(n)}):
                yield 'height %d' % j, prog[:-1] + [dict(last, h=[last['h'][j]])], lambda v, w, j=j, n=n: _elem(v, w, j, n)
        elif k == 'util' and last['fn'] in ELEMENTWISE and not last.get('shape') or k == 'absorb' and last['kind'] in ('clear', 'cloudy'):
            n = last['prof'][1]
            for j in sorted({n - 1, rng.randrange(n)}):
                yield 'level %d' % j, prog[:-1] + [dict(last, only=j)], lambda v, w, j=j, n=n: _elem(v, w, j, n)


def _row(v, w, j, a, nf):
    """Pairs of values (from the batch, from the single calculation)."""
    if v[0] == 'l':
        yield from _row(v[1][0], w[1][0], j, a, nf)
        d = dict(w[1][1][1])
        for n, x in v[1][1][1]:
            y = d[n]
            if x[1].ndim == 3:
                yield ('a', x[1][j:j + 1, a:a + 1]), y
            else:
                yield ('a', x[1][:, a:a + 1]), y
        return
    for c, x, y in zip(v[1], v[2], w[2]):
        r = a * nf + j
        yield ('a', x[1][r:r + 1]), y


def _elem(v, w, j, n):
    if v[0] == 'l' and w[0] == 'l':
        for x, y in zip(v[1], w[1]):
            yield from _elem(x, y, j, n)
    elif v[0] == 'a' and v[1].shape == (n,) and w[0] == 'a' and w[1].size == 1:
        yield ('a', v[1][j:j + 1]), ('a', w[1].reshape(1))


# ------------------------------------------------------------------------ one run
def fds():
    """The open files of this process, by number and what they refer to."""
    r = set()
    for n in os.listdir('/proc/self/fd'):
        try:
            r.add((n, os.readlink('/proc/self/fd/' + n)))
        except OSError:                # the descriptor of the listing itself
            pass
    return r


def simulate(spec):
    """Executed in a forked child: run the history on the real code. Returns observations."""
    SALT[0] = spec.get('salt', 0)
    import numpy as np
    import warnings
    from .world import World
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    seams.USE_MEM[0] = not spec.get('real_nc')
    checks = spec['checks']
    faults = {int(k): v for k, v in spec.get('faults', {}).items()}
    w = World(keep='results' in checks or 'scribble' in checks, ro=spec.get('ro', False))
    seams.names()
    if spec.get('web'):
        from . import net, era
        net.install()
        era.install()
    outs, fired, placed, issues = [], [], {}, []
    sched_info = None
    gc.collect()
    before_fd = fds()
    if 'globals' in checks:
        sys.stderr = Quiet()
        before = procenv.snapshot()
    for i, o in enumerate(spec['ops']):
        try:
            if o['op'] == 'par':
                res, sched_info, iss = run_par(w, i, o)
                outs.append(res)
                fired.append(False)
                issues += [('threads', i, x) for x in iss]
            elif i in faults:
                out, f, pl = w.call_faulty(i, o, faults[i])
                outs.append(out)
                fired.append(bool(f))
                if pl:
                    placed[i] = pl
            else:
                outs.append(w.call(i, o))
                fired.append(False)
        except SimDeadlock as e:
            issues.append(('deadlock', i, 'operation waits for a lock nobody holds or will release: %s' % e))
            break
        if 'inputs' in checks or 'scribble' in checks:
            for n in w.changed_inputs():
                if spec.get('inputs') and not n.startswith(spec['inputs']):
                    continue
                issues.append(('inputs', i, 'caller-owned %s was modified' % n))
        if 'globals' in checks:
            after = procenv.snapshot()
            if o['op'] != 'env':
                issues += [('globals', i, x) for x in procenv.changes(before, after)]
                if o['op'] == 'import':
                    issues += [('globals', i, 'importing the library: ' + x[1]) for x in outs[i][1][1]]
            before = after
        if spec.get('ro') and outs[i][0] == 'raise' and 'read-only' in outs[i][2]:
            issues.append(('inputs', i, 'writes into a caller-owned array (%s)' % outs[i][2]))
        if 'results' in checks:
            for k in w.changed_results(i):
                issues.append(('results', i, 'the result returned by operation %d changed' % k))
    if 'fds' in checks:
        w.objs.clear()
        gc.collect()
        gc.collect()
        n = len(fds() - before_fd)
        if n:
            issues.append(('fds', len(outs) - 1, '%d file descriptors left open' % n))
        if seams.OPEN:
            issues.append(('fds', len(outs) - 1, '%d data sets left open' % len(seams.OPEN)))
        if NET.open:
            issues.append(('fds', len(outs) - 1, '%d sockets left open (%s)' % (len(NET.open), sorted(NET.open.values())[0])))
    ARC.cleanup()
    procenv.cleanup()
    return {'simtime': NET.total, 'steps': ARC.steps, 'outs': outs, 'fired': fired, 'placed': placed, 'issues': issues, 'sched': sched_info}


def run_par(w, i, o):
    from .sched import Sched, make_strategy
    n = len(o['clients'])
    res = [[] for _ in range(n)]

    def client(k):
        def body():
            for op in o['clients'][k]:
                res[k].append(w.call(i, op))
        return body
    for ops in o['clients']:
        for op in ops:
            if op['op'] == 'era_get':
                w.era_name(op)
    s = Sched(make_strategy(o['sched'], n), cap=o.get('cap', 4_000_000))
    s.run([client(k) for k in range(n)])
    return res, {'trace': s.trace, 'events': s.n, 'preempt': s.preempt,
                 'sites': sorted(map(str, s.sites))}, list(dict.fromkeys(s.issues))


def judge(spec, obs):
    """Compare the observations with the reference model. Returns (violations, info)."""
    from .model import Model
    from .world import same_outcome, diff, _oc
    checks = spec['checks']
    viol = list(obs['issues'])
    m = Model()
    compared = 0
    only = set(spec.get('observe') or ())

    def split(i, o, out, tag):
        nonlocal compared
        if out[0] != 'ok' or o['op'] not in ('exec', 'wf_gen', 'ext_call', 'util', 'absorb'):
            return
        prog = m.program(o)
        if prog is None:
            return
        for what, sub, pairs in parts(o, prog, out):
            exp = fresh(sub)
            compared += 1
            if exp[0] != 'ok':
                viol.append(('split', i, '%s%s: %s %s when calculated alone' % (tag, describe(o), what, _oc(exp))))
                continue
            for x, y in pairs(out[1], exp[1]):
                d = diff(x, y)
                if d:
                    viol.append(('split', i, '%s%s: %s %s (calculated alone)' % (tag, describe(o), what, d)))
                    break

    def cmp(i, o, out, fired, tag=''):
        nonlocal compared
        if 'split' in checks:
            split(i, o, out, tag)
        if 'fresh' not in checks or out[0] == 'skip':
            return
        if only and o['op'] not in only:
            return
        if fired and out[0] != 'ok':
            return
        prog = m.program(o)
        if prog is None:
            return
        exp = fresh(prog)
        compared += 1
        if o['op'] == 'll' and out[0] == exp[0] == 'ok':
            out = ('ok', known_names(out[1], exp[1], prog))
        d = same_outcome(out, exp)
        if d:
            viol.append(('fresh', i, '%s%s gives %s (in a fresh process with the same selection)'
                         % (tag, describe(o), d)))
    extra = spec.get('_truth')
    for i, (o, out) in enumerate(zip(spec['ops'], obs['outs'])):
        if o['op'] == 'par':
            # all clients use the selection in force; each must get what it would get alone
            base = m
            ms = []
            # what one client sets is open to the others until they set it themselves
            start = clone(base)
            sets = {}
            for ops, r in zip(o['clients'], out):
                x = clone(base)
                for op, y in zip(ops, r):
                    x.follow(op, y, False)
                for what in ('sel', 'll'):
                    for c, v in getattr(x, what).items():
                        if v != getattr(base, what)[c]:
                            getattr(start, what)[c] = '?'
                            sets.setdefault((what, c), set()).add(v)
            for k, ops in enumerate(o['clients']):
                m = clone(start)
                for op, r in zip(ops, out[k]):
                    cmp(i, op, r, False, 'client %d: ' % k)
                    if extra is not None:
                        viol += [(a, b, 'client %d: %s' % (k, c)) for a, b, c in extra(i, op, r, False, m)]
                    m.follow(op, r, False)
                if len(out[k]) < len(ops) and not obs['issues']:
                    viol.append(('threads', i, 'client %d did not finish' % k))
                ms.append(m)
            m = base
            for x in ms:
                m.obj.update(x.obj)
                m.dic.update(x.dic)
            for (what, c), v in sets.items():
                getattr(m, what)[c] = v.pop() if len(v) == 1 else '?'
            continue
        fired = obs['fired'][i]
        cmp(i, o, out, fired)
        if extra is not None:
            viol += extra(i, o, out, fired, m)
        f = obs['placed'].get(i)
        # an interrupt inside the radiative transfer cannot have hit the code that puts a
        # selection back
        if f and f['t'] in ('ki', 'mem') and not str(f.get('site')).startswith(DEEP):
            o = dict(o, _async=True)
        m.follow(o, out, fired)
    viol.sort(key=lambda v: v[1])
    return viol, {'compared': compared}


def clone(m):
    from .model import Model
    n = Model()
    n.sel, n.ll, n.sp = dict(m.sel), dict(m.ll), m.sp
    n.obj, n.dic = dict(m.obj), dict(m.dic)
    n.now, n.n = dict(m.now), m.n
    n.era = m.era
    return n


def describe(o):
    return o['op'] + '(' + ', '.join('%s=%s' % (k, v) for k, v in o.items() if k != 'op') + ')'


def evaluate(spec, truth=None):
    """Run + judge. Returns (violations, observations, info)."""
    SALT[0] = spec.get('salt', 0)
    if spec.get('interp'):
        st, obs = other(spec)
    else:
        st, obs = forked(lambda: simulate(spec), timeout=spec.get('wall', 100))
    if st == 'timeout':
        return [('hang', len(spec['ops']) - 1, 'the run does not end')], None, {}
    if st == 'signal':
        return [('crash', len(spec['ops']) - 1, 'the interpreter died with signal %s' % obs)], None, {}
    s = dict(spec)
    s['_truth'] = truth
    v, info = judge(s, obs)
    if spec.get('interp'):
        st, ref = forked(lambda: simulate(spec), timeout=spec.get('wall', 100))
        if st == 'ok':
            v = sorted(v + against(spec, obs, ref), key=lambda x: x[1])
    return v, obs, info


def against(spec, obs, ref):
    """The same history in two differently set up interpreters gives the same answers."""
    from .world import same_outcome
    v = []
    for i, (o, a, b) in enumerate(zip(spec['ops'], obs['outs'], ref['outs'])):
        if o['op'] in ('wy', 'stations', 'igra', 'urlopen', 'era_get', 'era_read'):
            a, b = a[:-1] or a, b[:-1] or b
        d = same_outcome(a, b)
        if d:
            v.append(('interp', i, '%s gives %s (in an interpreter with another hash seed, date, time zone, locale and '
                      'directory)' % (describe(o), d)))
    return v


# ------------------------------------------------------------------------ other interpreters
_servers = {}
CLOCK = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
static long off(long now) { static long v; static int k; if (!k) { char *s = getenv("VERIF_CLOCK"); v = s ? atol(s) - now : 0; k = 1; } return v; }
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += off(t->tv_sec);
    return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
"""
_clock = []


def clock_lib():
    """A preloaded library that moves the wall clock of a process (None without a compiler)."""
    if not _clock:
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'runs')
        lib = os.path.join(d, 'clock.so')
        try:
            if not os.path.exists(lib):
                os.makedirs(d, exist_ok=True)
                tmp = '%s.%d' % (lib, os.getpid())
                subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', tmp, '-x', 'c', '-', '-ldl'], check=True, capture_output=True,
                               input=CLOCK.encode(), timeout=60)
                os.replace(tmp, lib)
            _clock.append(lib)
        except (OSError, subprocess.SubprocessError):
            _clock.append(None)
    return _clock[0]


def serve():
    """Another interpreter, set up differently, that executes runs."""
    import struct
    rfd, wfd, opt = (int(x) for x in sys.argv[1:4])
    seams.OPT[0] = opt
    seams.install()
    inp, out = os.fdopen(rfd, 'rb'), os.fdopen(wfd, 'wb')
    while True:
        h = inp.read(8)
        if len(h) < 8:
            os._exit(0)
        spec = json.loads(inp.read(struct.unpack('<Q', h)[0]))
        try:
            res = forked(lambda: simulate(spec), timeout=spec.get('wall', 100))
        except HarnessError as e:
            res = ('err', str(e))
        b = pickle.dumps(res, protocol=5)
        out.write(struct.pack('<Q', len(b)) + b)
        out.flush()


def other(spec):
    """Execute the run in an interpreter with the hash seed, clock, time zone, locale and
    directory that spec['interp'] says."""
    import struct
    c = spec['interp']
    key = json.dumps(c, sort_keys=True)
    if key not in _servers:
        env = dict(os.environ, PYTHONHASHSEED=str(c['hash']), TZ=c['tz'], PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        env.update({'LC_ALL': c['locale'], 'HOME': '/nonexistent', 'VERIF_CLOCK': str(c['clock'])})
        lib = clock_lib()
        if lib:
            env['LD_PRELOAD'] = lib
        a, b = os.pipe()
        x, y = os.pipe()
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); from sim import engine; engine.serve()' % here,
                              str(a), str(y), str(c['opt'])], env=env, cwd=c['cwd'], pass_fds=(a, y),
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        os.close(a)
        os.close(y)
        _servers[key] = (p, os.fdopen(b, 'wb'), os.fdopen(x, 'rb'))
    p, out, inp = _servers[key]
    s = json.dumps({k: v for k, v in spec.items() if k != 'interp' and not k.startswith('_')}).encode()
    try:
        out.write(struct.pack('<Q', len(s)) + s)
        out.flush()
        h = inp.read(8)
        res = pickle.loads(inp.read(struct.unpack('<Q', h)[0]))
    except (OSError, struct.error, EOFError) as e:
        del _servers[key]
        raise HarnessError('the other interpreter died: %s' % e)
    if res[0] == 'err':
        raise HarnessError(res[1])
    return res


def concrete(spec, obs):
    """The spec with every random decision replaced by what was decided."""
    s = json.loads(json.dumps({k: v for k, v in spec.items() if not k.startswith('_')}))
    if obs is None:
        return s
    for i, f in obs['placed'].items():
        s.setdefault('faults', {})[str(i)] = f
    if obs['sched']:
        for o in s['ops']:
            if o['op'] == 'par':
                o['sched'] = {'kind': 'replay', 'trace': [list(x) for x in obs['sched']['trace']]}
    return s


# ------------------------------------------------------------------------ minimisation
def drop_ops(spec, keep):
    s = dict(spec)
    s['ops'] = [spec['ops'][i] for i in keep]
    idx = {old: new for new, old in enumerate(keep)}
    s['faults'] = {str(idx[int(k)]): v for k, v in spec.get('faults', {}).items() if int(k) in idx}
    return s


def minimise(spec, truth=None, budget=45.0, ignore=()):
    """Delta-debug operations, faults and schedule while the property stays violated."""
    end = time.monotonic() + budget
    kinds = {v[0] for v in evaluate(spec, truth)[0]} - set(ignore)
    tried = 0

    def bad(s):
        nonlocal tried
        tried += 1
        try:
            v = evaluate(s, truth)[0]
        except HarnessError:
            return False
        return bool({x[0] for x in v} & kinds)

    def reduce(items, build):
        n = 2
        items = list(items)
        while len(items) >= 1 and time.monotonic() < end:
            size = max(1, len(items) // n)
            done = False
            for a in range(0, len(items), size):
                cand = items[:a] + items[a + size:]
                if time.monotonic() > end:
                    break
                if bad(build(cand)):
                    items, done = cand, True
                    n = max(n - 1, 2)
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    if not kinds:
        return spec, 0
    keep = reduce(range(len(spec['ops'])), lambda k: drop_ops(spec, k))
    spec = drop_ops(spec, keep)
    fk = list(spec.get('faults', {}))
    if fk:
        fk = reduce(fk, lambda k: dict(spec, faults={x: spec['faults'][x] for x in k}))
        spec = dict(spec, faults={x: spec['faults'][x] for x in fk})
    for pi, o in enumerate(spec['ops']):
        if o['op'] != 'par':
            continue

        def with_par(p):
            ops = list(spec['ops'])
            ops[pi] = p
            return dict(spec, ops=ops)
        for k in range(len(o['clients'])):
            def build(sub, k=k):
                c = list(spec['ops'][pi]['clients'])
                c[k] = sub
                return with_par(dict(spec['ops'][pi], clients=c))
            sub = reduce(o['clients'][k], build)
            spec = build(sub)
        if spec['ops'][pi]['sched']['kind'] == 'replay':
            tr = reduce(spec['ops'][pi]['sched']['trace'],
                        lambda t: with_par(dict(spec['ops'][pi], sched={'kind': 'replay', 'trace': t})))
            spec = with_par(dict(spec['ops'][pi], sched={'kind': 'replay', 'trace': tr}))
    # faults and transport choices attached to operations
    def variants(o):
        if o.get('fault'):
            yield {k: v for k, v in o.items() if k != 'fault'}
        net = o.get('net')
        if net:
            yield dict(o, net=[])
            for j in range(len(net)):
                yield dict(o, net=net[:j] + net[j + 1:])
            for j, it in enumerate(net):
                for k in sorted(it):
                    yield dict(o, net=net[:j] + [{a: b for a, b in it.items() if a != k}] + net[j + 1:])

    def shrink(get, put):
        nonlocal spec
        again = True
        while again and time.monotonic() < end:
            again = False
            for c in variants(get(spec)):
                s = put(c)
                if bad(s):
                    spec, again = s, True
                    break
    for pi, o in enumerate(spec['ops']):
        if o['op'] != 'par':
            def put(c, pi=pi):
                return dict(spec, ops=spec['ops'][:pi] + [c] + spec['ops'][pi + 1:])
            shrink(lambda s, pi=pi: s['ops'][pi], put)
            continue
        for k in range(len(o['clients'])):
            for j in range(len(o['clients'][k])):
                def put(c, pi=pi, k=k, j=j):
                    p = json.loads(json.dumps(spec['ops'][pi]))
                    p['clients'][k][j] = c
                    return dict(spec, ops=spec['ops'][:pi] + [p] + spec['ops'][pi + 1:])
                shrink(lambda s, pi=pi, k=k, j=j: s['ops'][pi]['clients'][k][j], put)
    return spec, tried
