"""Search, minimise, replay and report for one property."""
import collections
import gc
import hashlib
import json
import mmap
import os
import pickle
import re
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = {'quick': 4000, 'thorough': 400000}
CAP = {'quick': 70.0, 'thorough': 3600.0}

RULES = {
    'history': 'One case is a seeded random history of calls (5-40 operations over a small pool of models, columns, frequencies and '
               'objects) with the faults and thread schedule attached to it; non-trivial: at least one operation of it was '
               'compared with the reference model or checked against an invariant and, where the property is about faults or '
               'schedules, at least one fault fired or one thread was preempted. Distinct: different operations, faults as placed '
               'and schedule trace.',
}


def load_known():
    p = os.path.join(HERE, 'known-findings.json')
    with open(p) as fh:
        return json.load(fh)


def spec_digest(spec):
    s = {k: v for k, v in spec.items() if k not in ('run', 'prop') and not k.startswith('_')}
    return hashlib.blake2b(json.dumps(s, sort_keys=True).encode(), digest_size=8).hexdigest()


def observation_digest(obs):
    if obs is None:
        return 'none'
    from .world import digest
    d = hashlib.blake2b(digest_size=10)
    # addresses of objects and names of scratch directories in messages differ between processes
    cut = re.compile(r'0x[0-9a-f]{6,}|/verif-[\w.-]+')
    d.update(digest([cut.sub('', _plain(x)) for x in obs['outs']]).encode())
    d.update(cut.sub('', repr((obs['fired'], sorted(obs['placed'].items()), obs['issues'], obs['simtime'], obs['steps']))).encode())
    if obs['sched']:
        d.update(repr((obs['sched']['trace'], obs['sched']['events'])).encode())
    return d.hexdigest()


def _plain(x):
    return json.dumps(x, default=lambda v: v.tolist() if hasattr(v, 'tolist') else repr(v), sort_keys=True)


def faults_fired(spec, obs):
    c = collections.Counter()
    for i, f in obs['placed'].items():
        if obs['fired'][i]:
            c[f['t'] + (':%s:%s' % (f['event'], f['exc']) if f['t'] == 'nc' else ':' + f['exc'] if f['t'] == 'loadtxt' else '')] += 1

    def one(o, out):
        if not out or out[0] == 'skip' or not isinstance(out[-1], dict):
            return
        info = out[-1]
        if o['op'] in ('wy', 'stations', 'igra', 'urlopen'):
            for k in info['fired']:
                c['net:' + k] += 1
            for it in o.get('net') or []:
                for k in ('gzip', 'seg', 'delay', 'redir', 'idle_close'):
                    if it.get(k):
                        c['net-transport:' + k] += 1
        elif info.get('fired') and o.get('fault'):
            c['era5:' + o['fault']['k']] += 1
    for o, out in zip(spec['ops'], obs['outs']):
        if o['op'] == 'par':
            for ops, outs in zip(o['clients'], out):
                for a, b in zip(ops, outs):
                    one(a, b)
        else:
            one(o, out)
    return c


class Search:
    def __init__(self, a, known):
        self.a = a
        self.known = {f['kind'] for f in known['findings'] if f['property'] == a.prop}

    # ---------------------------------------------------------------- one run in a worker
    def one(self, i, cat, checkdet):
        from . import engine, gen, truth
        t0 = time.monotonic()
        rec = {'i': i, 'viol': [], 'known': 0, 'err': None}
        try:
            spec = gen.make_spec(self.a.prop, self.a.seed, i, cat)
            tr = truth.get(spec)
            spec['wall'] = 60
            v, obs, info = engine.evaluate(spec, tr)
            if obs is None:
                v = self.unusual(spec, v, tr)
            rec['known'] = sum(x[0] in self.known for x in v)
            v = [x for x in v if x[0] not in self.known]
            if v:
                engine._memo.clear()
                spec['wall'] = 120
                v2, obs2, _ = engine.evaluate(spec, tr)
                v2 = [x for x in v2 if x[0] not in self.known]
                if {x[0] for x in v} & {x[0] for x in v2}:
                    rec['viol'] = v
                    rec['spec'] = engine.concrete(spec, obs)
                else:
                    rec['unreproduced'] = v[:2]
            if obs is not None:
                rec['od'] = observation_digest(obs)
                if checkdet and not v:
                    _, o3, _ = engine.evaluate(spec, tr)
                    rec['det'] = observation_digest(o3) == rec['od']
                rec['sd'] = spec_digest(engine.concrete(spec, obs))
                rec['faults'] = faults_fired(spec, obs)
                rec['placed'] = len(obs['placed'])
                rec['compared'] = info.get('compared', 0)
                rec['simtime'] = obs['simtime']
                rec['steps'] = obs['steps']
                ops = collections.Counter()
                n = 0
                for o in spec['ops']:
                    if o['op'] == 'par':
                        for x in o['clients']:
                            ops.update(y['op'] for y in x)
                            n += len(x)
                    else:
                        ops[o['op']] += 1
                        n += 1
                rec['ops'] = ops
                rec['invariants'] = n if set(spec['checks']) - {'fresh', 'threads'} else 0
                if obs['sched']:
                    s = obs['sched']
                    rec['sched'] = (s['events'], s['preempt'], hashlib.blake2b(repr(s['trace']).encode(), digest_size=8).hexdigest(),
                                    s['sites'])
                if i < 16:
                    rec['sample'] = engine.concrete(spec, obs)
            else:
                rec['err'] = 'no result'
        except engine.HarnessError:
            rec['err'] = traceback.format_exc()[-1500:]
        except Exception:
            rec['err'] = traceback.format_exc()[-1500:]
        rec['wall'] = time.monotonic() - t0
        return rec

    def unusual(self, spec, v, tr):
        """A run that never ended or died: a violation where the property promises an answer."""
        ok = []
        for x in v:
            if x[0] == 'crash' and not any('signal %d' % s in x[2] for s in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)):
                continue
            if set(spec['checks']) & {'fresh', 'threads', 'bounded', 'exact', 'split', 'globals'}:
                ok.append(x)
        return ok

    # ---------------------------------------------------------------- workers
    def worker(self, w, nw, stop, fd, cat, end):
        import warnings
        import numpy as np
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        out = os.fdopen(fd, 'wb', buffering=0)

        def send(rec):
            b = pickle.dumps(rec, protocol=5)
            out.write(struct.pack('<Q', len(b)) + b)
        i = self.a.first + (w - self.a.first) % nw
        from . import engine
        while i < self.a.first + self.a.runs:
            if i > struct.unpack('<q', stop[:8])[0] or time.monotonic() > end:
                break
            rec = self.one(i, cat, i % 40 == 7)
            if rec['viol']:
                cur = struct.unpack('<q', stop[:8])[0]
                if i < cur:
                    stop[:8] = struct.pack('<q', i)
            send(rec)
            i += nw
        send({'end': w, 'oracle': dict(engine.stats)})
        out.close()
        os._exit(0)

    def search(self, cat):
        a = self.a
        stop = mmap.mmap(-1, 8)
        stop[:8] = struct.pack('<q', 1 << 60)
        end = time.monotonic() + a.cap
        gc.collect()
        gc.freeze()
        pids, fds = {}, {}
        for w in range(a.workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for x in fds:
                        os.close(x)
                    self.worker(w, a.workers, stop, wr, cat, end)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(9)
            os.close(wr)
            pids[pid] = w
            fds[r] = b''
        recs, ended, oracle = [], 0, collections.Counter()
        hard = end + 260
        while fds:
            rd = select.select(list(fds), [], [], 5)[0]
            if time.monotonic() > hard:
                break
            for r in rd:
                b = os.read(r, 1 << 20)
                if not b:
                    os.close(r)
                    del fds[r]
                    continue
                buf = fds[r] + b
                while len(buf) >= 8:
                    n = struct.unpack('<Q', buf[:8])[0]
                    if len(buf) < 8 + n:
                        break
                    x = pickle.loads(buf[8:8 + n])
                    buf = buf[8 + n:]
                    if 'end' in x:
                        ended += 1
                        oracle.update(x['oracle'])
                    else:
                        recs.append(x)
                fds[r] = buf
        for p in pids:
            try:
                if fds:
                    os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        return recs, ended, oracle


def prepare(prop):
    from . import seams
    seams.install()
    from . import engine, sched
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    cat = None
    if prop in ('C03', 'C06'):
        st, cat = engine.forked(lambda: sched.catalogue(sched.SAMPLE))
        if st != 'ok':
            raise RuntimeError('catalogue: %s' % st)
    return cat


def violation_text(v):
    return '\n'.join('  operation %d: [%s] %s' % (x[1], x[0], x[2]) for x in v[:8])


def replay(a):
    from . import engine, truth
    with open(a.replay) as fh:
        r = json.load(fh)
    prepare(r['property'])
    spec = r['spec']
    spec['wall'] = 120
    v, obs, _ = engine.evaluate(spec, truth.get(spec))
    if not v:
        print('replay: the property held')
        return 0
    print('VIOLATION property=%s replay=%s' % (r['property'], a.replay))
    print(violation_text(v))
    if obs is not None:
        print('observation digest %s%s' % (observation_digest(obs), '' if not r.get('observation') else
                                           ' (as recorded)' if r['observation'] == observation_digest(obs) else ' (recorded: %s)' % r['observation']))
    return 1


def known_findings(a, known):
    """Run the history recorded for each listed finding of this property."""
    from . import engine, truth
    seen = []
    for f in known['findings']:
        if f['property'] != a.prop:
            continue
        spec = dict(f['spec'], wall=60)
        v = engine.evaluate(spec, truth.get(spec))[0]
        if any(x[0] == f['kind'] for x in v):
            print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
            seen.append(f['kind'])
    return seen


def run(a):
    t0 = time.monotonic()
    if a.replay:
        return replay(a)
    a.runs = a.runs or RUNS[a.tier]
    a.cap = a.cap or CAP[a.tier]
    print('property %s, tier %s, seed %d' % (a.prop, a.tier, a.seed))
    sys.stdout.flush()
    known = load_known()
    try:
        cat = prepare(a.prop)
    except BaseException:
        traceback.print_exc()
        print('check.py: the code under test cannot be prepared', file=sys.stderr)
        return 3
    from . import engine, truth
    seen = known_findings(a, known)
    s = Search(a, known)
    t1 = time.monotonic()
    recs, ended, oracle = s.search(cat)
    wall = time.monotonic() - t1
    recs.sort(key=lambda r: r['i'])
    errs = [r for r in recs if r['err']]
    viol = [r for r in recs if r['viol']]
    if a.digests:
        with open(a.digests, 'w') as fh:
            for r in recs:
                fh.write('%d %s %s\n' % (r['i'], r.get('sd'), r.get('od')))
    rc = 0
    path = None
    if viol:
        path, text = report(a, viol[0], wall)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print(text)
        rc = 1
    elif not recs or len(errs) > 0.2 * len(recs) or ended < a.workers:
        print('check.py: %d of %d runs could not be evaluated, %d of %d workers ended' % (len(errs), len(recs), ended, a.workers), file=sys.stderr)
        rc = 3
    for r in errs[:2]:
        print('run %d: %s' % (r['i'], r['err']), file=sys.stderr)
    un = [r for r in recs if r.get('unreproduced')]
    for r in un[:2]:
        print('run %d: not reproduced, not reported: %s' % (r['i'], r['unreproduced']), file=sys.stderr)
    if not a.no_evidence:
        evidence(a, recs, oracle, wall, time.monotonic() - t0, len(viol), seen, len(errs), len(un))
    print('%d runs in %.0f s, %d comparisons, %d violations' % (len(recs), wall, sum(r.get('compared', 0) for r in recs), len(viol)))
    return rc


def report(a, rec, wall):
    """Minimise a violation, write the replay file and check it in a fresh interpreter."""
    from . import engine, truth
    spec = rec['spec']
    tr = truth.get(spec)
    kinds = sorted({x[0] for x in rec['viol']})
    small, tried = spec, 0
    slow = 'hang' in kinds
    known = {f['kind'] for f in load_known()['findings'] if f['property'] == a.prop}
    try:
        if not slow:
            small, tried = engine.minimise(spec, tr, budget=45 if a.tier == 'quick' else 300, ignore=known)
    except Exception:
        traceback.print_exc()
    small = dict(small, wall=120)
    v, obs, _ = engine.evaluate(small, tr)
    v = [x for x in v if x[0] not in known]
    if not v:
        small, v, obs = spec, rec['viol'], None
    d = os.path.join(HERE, 'runs')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%d.json' % (a.prop, a.seed, rec['i']))
    with open(path, 'w') as fh:
        json.dump({'property': a.prop, 'seed': a.seed, 'run': rec['i'], 'violations': [list(x) for x in v], 'minimisation_trials': tried,
                   'operations_before': len(spec['ops']), 'operations': len(small['ops']),
                   'observation': observation_digest(obs) if obs is not None else None, 'spec': small}, fh, indent=1)
    env = {k: x for k, x in os.environ.items() if k != 'VERIF_INNER'}
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), a.prop, '--replay', path], env=env, capture_output=True,
                           text=True, timeout=260)
        again = p.returncode == 1
        same = '(as recorded)' in p.stdout
    except subprocess.TimeoutExpired:
        again, same = slow, False
    text = violation_text(v)
    text += '\n  seed %d, run %d; %d of %d operations left after minimisation; replay in a fresh process: %s' % (
        a.seed, rec['i'], len(small['ops']), len(spec['ops']), ('reproduced' + (' exactly' if same else '')) if again else 'NOT reproduced')
    return path, text


REAL = ['pyrtlib (all modules, from /repo working tree, imported from source)', 'numpy, scipy, pandas, scikit-learn',
        'CPython threads (real threads, one runs at a time, switched by the simulator)']
COMPONENTS = {
    'core': ['netCDF4 opens and reads of the line-list files: served from a snapshot of the real files behind the simulated data set '
             '(a share of the runs of C02, C05, C13 uses the real library on the real files)'],
    'web': ['TCP/TLS sockets, DNS, clocks: simulated', 'the Wyoming, NOAA/IGRA archives: simulated servers with generated content',
            'requests, urllib3, http.client, zipfile, gzip, BeautifulSoup: real'],
    'era': ['cdsapi client and Copernicus archive: stub writing real netCDF files in pieces to a real scratch directory',
            'file system: real scratch directory; os.replace/os.rename are fault, crash and switch points', 'netCDF4: real library'],
}


def evidence(a, recs, oracle, wall, total, nviol, seen, nerr, nun):
    good = [r for r in recs if not r['err']]
    faults, ops = collections.Counter(), collections.Counter()
    for r in good:
        faults.update(r.get('faults') or {})
        ops.update(r.get('ops') or {})
    scheds = [r['sched'] for r in good if r.get('sched')]
    need_fault = a.prop in ('C02', 'C08', 'C10')
    need_sched = a.prop == 'C03'

    def nontrivial(r):
        if not (r.get('compared') or r.get('invariants')):
            return False
        if need_fault and not r.get('faults'):
            return False
        if need_sched and not (r.get('sched') and r['sched'][1]):
            return False
        return True
    distinct = {r['sd'] for r in good if nontrivial(r)}
    samples = []
    for r in good:
        if r.get('sample') and len(samples) < 2:
            s = r['sample']
            for o in s['ops']:
                if o['op'] == 'par':
                    o['sched']['trace'] = o['sched']['trace'][:20]
            samples.append({'run': r['i'], 'ops': s['ops'], 'faults': s.get('faults', {})})
    web = any(o in ops for o in ('wy', 'stations', 'igra', 'urlopen'))
    era = any(o in ops for o in ('era_get', 'era_read'))
    cov = {
        'evaluations': len(good),
        'distinct_nontrivial': len(distinct),
        'rule': RULES['history'],
        'samples': samples,
        'runs_per_hour': int(len(good) / max(wall, 1e-9) * 3600),
        'seeds': 'base seed %d, run indices %s..%s (each run is a function of the base seed and its index)' % (
            a.seed, recs[0]['i'] if recs else '-', recs[-1]['i'] if recs else '-'),
        'operations': dict(ops.most_common()),
        'comparisons_with_reference_model': sum(r.get('compared', 0) for r in good),
        'operations_checked_against_invariants': sum(r.get('invariants', 0) for r in good),
        'fresh_process_oracle_runs': oracle.get('oracle_runs', 0),
        'fresh_process_oracle_answers_reused': oracle.get('oracle_hits', 0),
        'faults_fired': dict(faults.most_common()),
        'faults_fired_total': sum(v for k, v in faults.items() if not k.startswith('net-transport')),
        'runs_with_a_fault': sum(any(not k.startswith('net-transport') for k in (r.get('faults') or {})) for r in good),
        'simulated_seconds_of_network_time': round(sum(r.get('simtime', 0) for r in good), 1),
        'download_steps': sum(r.get('steps', 0) for r in good),
        'distinct_histories': len({r['sd'] for r in good}),
        'distinct_observed_outcomes': len({r['od'] for r in good}),
        'unevaluated_runs': nerr,
        'violations_not_reproduced_and_not_reported': nun,
        'known_findings_seen': seen,
        'known_finding_occurrences_in_search': sum(r.get('known', 0) for r in good),
        'determinism_self_check': '%d runs executed twice, %d with identical observations' % (
            sum('det' in r for r in good), sum(bool(r.get('det')) for r in good)),
        'ran_real_code': REAL + (COMPONENTS['web'][2:] if web else []) + (COMPONENTS['era'][2:] if era else []),
        'ran_a_stub': COMPONENTS['core'] + (COMPONENTS['web'][:2] if web else []) + (COMPONENTS['era'][:2] if era else []),
    }
    if scheds:
        sites = set()
        for x in scheds:
            sites.update(x[3])
        cov['schedules'] = {'runs_with_threads': len(scheds), 'switch_points_passed': sum(x[0] for x in scheds),
                            'preemptions': sum(x[1] for x in scheds), 'distinct_interleavings': len({x[2] for x in scheds}),
                            'distinct_preemption_sites': len(sites)}
    ev = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['a fresh process that performs the same selection and the same call gives the reference answer '
                          '(properties about histories, faults and schedules, not about the physics)',
                          'what lies behind the seams behaves as the simulator models it (see DESIGN.md)'],
          'wall_s': round(total, 1), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', a.prop + '.json')
    with open(p + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + '.tmp', p)
