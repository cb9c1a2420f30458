"""Ground truth: what the data files and the simulated archives really hold (not obtained
through pyrtlib)."""
import os
from datetime import datetime

import numpy as np

from . import seams

FILE = {'H': 'h2o_lineshape.nc', 'O': 'o2_lineshape.nc', '3': 'o3_lineshape.nc'}
KEY = {'H': 'WaterVapour', 'O': 'Oxygen', '3': 'Ozone'}


def group(c, m):
    for p, g in seams.MEM.items():
        if os.path.basename(p) == FILE[c]:
            return g if m is None else g.groups.get(m)
    return None


def expected(c, m):
    g = group(c, m)
    v = {k: np.asarray(np.ma.getdata(x[...])) for k, x in g.variables.items()}
    out = {}
    if c == 'O':
        for k in ('f', 's300', 'be', 'w300', 'x', 'wb300'):
            if k in v:
                out[k] = v[k]
        for k in ('v', 'y300', 'y0', 'y1', 'g0', 'g1', 'dnu0', 'dnu1'):
            if k in v:
                out['?' + k] = v[k]
    elif c == '3':
        t = v['mtx']
        out = {'fl': t[:, 1], 's1': t[:, 2], 'b': t[:, 3], 'w': t[:, 4] / 1000, 'x': t[:, 5],
               'sr': t[:, 6], 'reftline': v['reftline']}
    else:
        t, ctr = v['mtx'], v['ctr']
        out = {'fl': t[:, 1], 's1': t[:, 2], 'b2': t[:, 3], 'w0': t[:, 4] / 1000, 'x': t[:, 5],
               'reftline': v['reftline'], 'reftcon': ctr[0], 'cf': ctr[1], 'xcf': ctr[2], 'cs': ctr[3],
               'xcs': ctr[4]}
    return out


def lists(i, o, out, fired, m):
    k = o['op']
    res = []
    if k == 'll' and out[0] == 'ok':
        c = o['cls']
        mod = m.ll[c]
        if mod in (None, '?') or group(c, mod) is None:
            return []
        got = {n: x[1] for n, x in out[1][1]}
        for n, e in expected(c, mod).items():
            n = n.lstrip('?')
            if n not in got:
                continue
            g = np.asarray(got[n], float)
            if g.shape != e.shape or not np.allclose(g, e, rtol=1e-7, atol=0, equal_nan=True):
                res.append(('truth', i, 'line list in force for %s is not that of model %s: %s differs from the '
                            'data file' % (c, mod, n)))
                break
    elif k == 'set_ll' and not fired:
        c = o['cls']
        mod = m.sel[c]
        if mod == '?':
            return []
        have = mod is not None and group(c, mod) is not None
        if have and out[0] != 'ok':
            res.append(('truth', i, 'model %s is available for %s but was rejected (%s)' % (mod, c, out[1])))
        if not have and (out[0] == 'ok' or out[1] != 'AbsModelError'):
            res.append(('truth', i, 'model %r is not available for %s but set_ll %s' % (
                mod, c, 'succeeded' if out[0] == 'ok' else 'raised ' + out[1])))
    elif k == 'models' and out[0] == 'ok':
        got = {n: [y[1] for y in x[1]] for n, x in out[1][1]}
        for c in FILE:
            if got.get(KEY[c]) != list(group(c, None).groups):
                res.append(('truth', i, 'implemented models of %s are reported as %s' % (KEY[c], got.get(KEY[c]))))
    return res


# ------------------------------------------------------------------------ web archives
EP = datetime(1970, 1, 1)


def same_frame(got, want, path):
    """got: normalised DataFrame; want: {column: list}. None or where they differ."""
    if got[0] != 'df':
        return '%s is not a table' % path
    cols = dict(zip(got[1], got[2]))
    for k, w in want.items():
        if k not in cols:
            return '%s has no column %s' % (path, k)
        g = cols[k]
        n = len(g[1])
        if n != len(w):
            return '%s.%s has %d rows, the archive holds %d' % (path, k, n, len(w))
        if not n:
            continue
        if isinstance(w[0], datetime):
            w = [int((x - EP).total_seconds() * 1e6) for x in w]
        if isinstance(w[0], str):
            gv = [x[1] for x in g[1]] if g[0] == 'l' else list(g[1])
            gv = ['' if isinstance(x, float) and x != x else x for x in gv]
            for i, (a, b) in enumerate(zip(gv, w)):
                if str(a) != b:
                    return '%s.%s[%d] is %r, the archive holds %r' % (path, k, i, a, b)
            continue
        try:
            gv = np.array([x[1] if isinstance(x, tuple) else x for x in g[1]], dtype=float)
        except (TypeError, ValueError):
            return '%s.%s is not numeric' % (path, k)
        wv = np.array(w, dtype=float)
        ok = np.isclose(gv, wv, rtol=1e-9, atol=1e-9, equal_nan=True)
        if not ok.all():
            i = int(np.argwhere(~ok)[0][0])
            return '%s.%s[%d] is %r, the archive holds %r' % (path, k, i, float(gv[i]), float(wv[i]))
    extra = set(cols) - set(want)
    if extra:
        return '%s has unexpected columns %s' % (path, sorted(extra))
    return None


def web_truth(o):
    from . import net
    if o['op'] == 'wy':
        return net.wy_truth(str(o['site']), o['t'])
    if o['op'] == 'stations':
        return net.st_truth(o.get('region') or 'europe')
    return net.igra_truth(o['t'], o['site'], o.get('beg2021'), o.get('derived'))


LIMIT = 300.0


def web(i, o, out, fired, m, checks):
    from . import net
    res = []
    info = out[-1]
    d = '%s(%s)' % (o['op'], ', '.join('%s=%s' % (k, v) for k, v in o.items() if k not in ('op', 'net')))
    if 'bounded' in checks:
        if info['hang']:
            res.append(('bounded', i, '%s never returns: %s' % (d, info['hang'])))
        elif info['elapsed'] - info['slow'] > LIMIT:
            res.append(('bounded', i, '%s took %.0f simulated seconds of silence' % (d, info['elapsed'] - info['slow'])))
    if info['hang']:
        return res
    if 'exact' not in checks:
        return res
    if o['op'] == 'urlopen':            # hands out the body of any answer, error pages included
        if not info['fired'] and not fired and (out[0] != 'ok' or out[1] != ('v', net.archive(o['url'])[2])):
            res.append(('exact', i, '%s %s' % (d, 'returned something else than the answer' if out[0] == 'ok' else 'failed with ' + out[1])))
        return res
    t = web_truth(o)
    faults = info['fired'] + (['interrupt'] if fired else [])
    if out[0] == 'ok':
        if t[0] != 'ok':
            res.append(('exact', i, '%s returned a table although the archive has no such data' % d))
            return res
        v = out[1]
        if o['op'] == 'stations':
            r = same_frame(v, t[1], 'result')
        else:
            r = same_frame(v[1][0], t[1], 'result')
            if r is None and o['op'] == 'igra':
                r = same_frame(v[1][1], t[2], 'header')
        if r is None and o['op'] != 'stations':
            # units and other metadata of a table do not depend on what came before
            k, a = (o['op'], bool(o.get('derived'))), v[1][1 if o['op'] == 'wy' else 2:]
            if m.attrs.setdefault(k, a) != a:
                r = 'the metadata differ from those of an earlier retrieval'
        if r:
            res.append(('exact', i, '%s%s: %s' % (d, ' under ' + '+'.join(faults) if faults else '', r)))
        return res
    mro = out[3]
    if 'Exception' not in mro and not fired:
        res.append(('exact', i, '%s ended with %s' % (d, out[1])))
    elif not faults:
        if t[0] == 'ok':
            res.append(('exact', i, '%s failed with %s (%s) although the archive answered correctly' % (d, out[1], out[2])))
        elif 'errors' in checks:
            want = 'HTTPError' if t[0] == 'missing' and o['op'] != 'igra' else 'ValueError'
            if want not in mro:
                res.append(('errors', i, '%s: missing data are reported as %s, not as %s' % (d, out[1], want)))
    elif faults == ['status'] and 'errors' in checks and o['op'] != 'igra' and 'HTTPError' not in mro:
        res.append(('errors', i, '%s: an error status is reported as %s, not as HTTPError' % (d, out[1])))
    return res


# ------------------------------------------------------------------------ ERA5
def era(i, o, out, fired, m, checks):
    from . import era as E
    res = []
    info = out[-1]
    own = m.era
    d = '%s(%s)' % (o['op'], ', '.join('%s=%s' % (k, v) for k, v in o.items() if k not in ('op', 'pieces', 'fmt')))
    if o['op'] == 'era_get':
        res += [('durable', i, x) for x in info['issues']]
        k = E.wanted(o['t'], o['lonlat'], o.get('res') or .25, o.get('off') or .4)
        own[o['x']] = k
        if out[0] == 'ok':
            if info['at'] == 'partial':
                res.append(('durable', i, '%s returned a file that is incomplete' % d))
            elif info['at'] != k:
                res.append(('exact', i, '%s returned a file with other content than requested' % d))
            elif info['fired'] and (o.get('fault') or {}).get('k') in ('raise', 'enospc', 'ki', 'mem', 'reject', 'nokey'):
                pass
        else:
            if info.get('at') == 'partial':
                res.append(('durable', i, '%s failed (%s) and left an incomplete file at the final path' % (d, out[1])))
            if not info['fired'] and not fired:
                res.append(('exact', i, '%s failed with %s (%s) although the archive delivered the file' % (d, out[1], out[2])))
        return res
    k = own.get(o['x'])
    if k is None:
        return res
    at = info['at']
    if out[0] == 'ok':
        if at is None:
            return [('exact', i, '%s returned data from a file that does not exist' % d)]
        r = same_era(out[1], k, o['lonlat'])
        if r:
            kind = 'exact'
            if at not in (None, 'partial') and at != k and at[3:7] == k[3:7]:
                kind = 'era-overwrite'
            elif at == 'partial' and info['fired'] and info['classic']:
                kind = 'era-truncated-classic'
            elif at == k and any(same_era(out[1], k, x) is None for x in E.diagonal(k, o['lonlat'])):
                kind = 'era-diagonal'
            res.append((kind, i, '%s: %s' % (d, r)))
    elif at == k and not fired:
        res.append(('exact', i, '%s failed with %s (%s) on a complete file' % (d, out[1], out[2])))
    elif 'Exception' not in out[3] and not fired:
        res.append(('exact', i, '%s ended with %s' % (d, out[1])))
    return res


def same_era(v, k, lonlat):
    from . import era as E
    from pyrtlib.utils import atmospheric_tickness
    w = E.truth(k, lonlat)
    w['z'] = list(atmospheric_tickness(np.array(w['p']), np.array(w['t']), np.array(w['q'])))
    return same_frame(v, w, 'result')


def get(spec):
    t = spec.get('truth')
    if t == 'lists':
        return lists
    if t == 'web':
        checks = spec['checks']

        def f(i, o, out, fired, m):
            if out[0] == 'skip':
                return []
            if o['op'] in ('wy', 'stations', 'igra', 'urlopen'):
                return web(i, o, out, fired, m, checks)
            if o['op'] in ('era_get', 'era_read'):
                res = era(i, o, out, fired, m, checks)
                # the recorded findings of C11 are its own; other properties do not judge what they touch
                return res if spec.get('prop') in ('C11', None) else [x for x in res if not x[0].startswith('era-')]
            return []
        return f
    return None
