"""Interpreter of operation histories against the real pyrtlib.

A history is a list of JSON operations.  Values are created by the interpreter from small
descriptors, so that a history is self-contained.  Object and dictionary names are used
once (single assignment), which makes the part of a history an operation depends on easy
to compute (see model.py)."""
import hashlib
import json
import os
import random
import resource
import tempfile
import _thread
from copy import deepcopy
from datetime import date, datetime

import numpy as np
import pandas as pd

from . import procenv, seams
from .seams import H, FaultPlan, SimAbort, SimDeadlock
from .sites import Injector
from .net import NET
from .era import ARC, SimCrash


# ------------------------------------------------------------------------ values
def norm(v, depth=0):
    """A plain copy of a result, good for comparing, hashing and pickling."""
    if isinstance(v, pd.DataFrame):
        return ('df', [str(c) for c in v.columns], [norm(np.asarray(v[c])) for c in v.columns],
                norm(np.asarray(v.index)))
    if isinstance(v, pd.Series):
        return ('sr', norm(np.asarray(v)))
    if isinstance(v, np.ma.MaskedArray):
        v = v.filled(np.nan) if v.dtype.kind == 'f' else v.filled()
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('l', [norm(x, depth + 1) for x in v.ravel().tolist()])
        if v.dtype.kind in 'Mm':
            return ('a', v.astype('datetime64[us]').astype('int64').copy())
        return ('a', v.copy())
    if isinstance(v, (bool, np.bool_)):
        return ('v', bool(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return ('n', float(v))
    if isinstance(v, (complex, np.complexfloating)):
        return ('c', complex(v))
    if isinstance(v, dict):
        return ('d', [(str(k), norm(v[k], depth + 1)) for k in sorted(v, key=str)])
    if isinstance(v, (list, tuple)):
        return ('l', [norm(x, depth + 1) for x in v])
    if v is None or isinstance(v, (str, bytes)):
        return ('v', v)
    if hasattr(v, 'value') and hasattr(v, 'uncer'):
        return ('sp', norm(v.value), norm(v.uncer))
    if isinstance(v, date):
        return ('v', v.isoformat())
    if isinstance(v, (set, frozenset)):
        return ('l', sorted((norm(x, depth + 1) for x in v), key=repr))
    return ('v', str(type(v).__name__))


def _num(a):
    return a[0] in ('a', 'n')


def diff(a, b, path=''):
    """None when a and b describe the same value, else where they differ."""
    if _num(a) and _num(b):
        x, y = np.asarray(a[1]), np.asarray(b[1])
        if x.shape != y.shape:
            return '%s: shape %s, expected %s' % (path, x.shape, y.shape)
        if x.dtype.kind in 'US' or y.dtype.kind in 'US':
            return None if bool(np.all(x == y)) else '%s: differs' % path
        with np.errstate(all='ignore'):
            ok = np.isclose(x, y, rtol=1e-9, atol=0, equal_nan=True)
        if ok.all():
            return None
        i = np.argwhere(~np.atleast_1d(ok))[0]
        xi = np.atleast_1d(x)[tuple(i)]
        yi = np.atleast_1d(y)[tuple(i)]
        return '%s[%s]: %r, expected %r' % (path, ','.join(map(str, i)), xi.item(), yi.item())
    if a[0] != b[0]:
        return '%s: %s, expected %s' % (path, _short(a), _short(b))
    k = a[0]
    if k == 'df':
        if a[1] != b[1]:
            return '%s: columns %s, expected %s' % (path, a[1], b[1])
        for c, x, y in zip(a[1], a[2], b[2]):
            r = diff(x, y, path + '.' + c)
            if r:
                return r
        return diff(a[3], b[3], path + '.index')
    if k == 'sr':
        return diff(a[1], b[1], path)
    if k == 'd':
        ka, kb = [x for x, _ in a[1]], [x for x, _ in b[1]]
        if ka != kb:
            return '%s: keys %s, expected %s' % (path, ka, kb)
        for (n, x), (_, y) in zip(a[1], b[1]):
            r = diff(x, y, path + '.' + n)
            if r:
                return r
        return None
    if k == 'l':
        if len(a[1]) != len(b[1]):
            return '%s: length %d, expected %d' % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if k == 'sp':
        return diff(a[1], b[1], path + '.value') or diff(a[2], b[2], path + '.uncer')
    return None if a == b else '%s: %s, expected %s' % (path, _short(a), _short(b))


def _short(a):
    s = repr(a[1:] if a[0] in ('v', 'n', 'c') else a)
    return s if len(s) < 160 else s[:160] + '...'


def same_outcome(a, b):
    """None or a description; a observed, b expected."""
    if a[0] != b[0]:
        return '%s, expected %s' % (_oc(a), _oc(b))
    if a[0] == 'raise':
        return None if a[1] == b[1] else 'raised %s, expected %s' % (a[1], b[1])
    if a[0] == 'ok':
        return diff(a[1], b[1])
    return None


def _oc(o):
    if o[0] == 'raise':
        return 'raised %s (%s)' % (o[1], o[2] if len(o) > 2 else '')
    return 'a result' if o[0] == 'ok' else str(o[0])


def digest(v):
    h = hashlib.blake2b(digest_size=12)

    def up(n):
        if isinstance(n, np.ndarray):
            h.update(str(n.dtype).encode() + str(n.shape).encode() + np.ascontiguousarray(n).tobytes())
        elif isinstance(n, (tuple, list)):
            h.update(b'(')
            for x in n:
                up(x)
            h.update(b')')
        else:
            h.update(repr(n).encode())
    up(norm(v))
    return h.hexdigest()


# ------------------------------------------------------------------------ input data
def make_profile(desc):
    """A physically plausible column from a descriptor [kind, levels, seed]."""
    kind, n, seed = desc[:3]
    if len(desc) > 3:
        return variant(make_profile(desc[:-1]), desc[-1])
    rng = np.random.RandomState(seed * 7919 + n)
    top = {'low': 18.0, 'mid': 32.0, 'full': 62.0}[kind]
    base = [0.0, 0.0, 0.08, 0.76][seed % 4]
    z = base + (top - base) * (np.linspace(0, 1, n) ** 1.4)
    z[1:-1] += rng.uniform(-0.2, 0.2, n - 2) * np.diff(z)[:-1] * 0.5
    t0 = 275 + rng.uniform(0, 25)
    t = t0 - 6.2 * np.minimum(z, 11) + np.clip(z - 20, 0, 27) * 1.9
    p = 1013.25 * np.exp(-z / (7.4 + rng.uniform(-.2, .2)))
    rh = np.clip(0.75 * np.exp(-z / 4.0) + rng.uniform(0, 0.05, n), 1e-4, 1)
    o3 = 4.5e18 * np.exp(-((z - 22) / 8.0) ** 2) + 1e16
    w = 8.0 * np.exp(-z / 2.2) + 1e-3
    denl = np.zeros(n)
    deni = np.zeros(n)
    a, b = max(1, n // 4), max(2, n // 2)
    denl[a:b + 1] = rng.uniform(0.05, 0.3)
    deni[b:b + 2] = 0.02
    return {'z': z, 'p': p, 't': t, 'rh': rh, 'o3n': o3, 'w': w, 'denliq': denl, 'denice': deni,
            'cldh': np.array([[z[a]], [z[b]]]), 'e': 6.1 * rh * np.exp(-z / 2.0)}


def variant(P, what):
    """A column that shares most of its values with P."""
    n = len(P['z'])
    mid = slice(1, n - 1)
    if what == 't':                     # another temperature between the ends
        P['t'][mid] += 2.5
    elif what == 'tiny':
        P['t'][mid] += 0.004
        P['rh'][mid] *= 1.0003
    elif what == 'rh':
        P['rh'] *= 0.9
        P['e'] *= 0.9
        P['w'] *= 0.9
    elif what == 'z':                   # other layers between the ends
        P['z'][mid] += 0.2 * np.diff(P['z'])[1:]
        P['p'][mid] *= 0.99
    elif what == 'o3':
        P['o3n'] *= 1.3
    elif what == 'cld':
        P['denliq'] *= 0.5
        P['denice'] *= 2
    elif what == 'swap':                # same values, two of them exchanged
        P['t'][[1, 2]] = P['t'][[2, 1]]
    elif what == 'dry':                 # nothing in the air above
        P['rh'][n // 2:] = 0.0
        P['e'][n // 2:] = 0.0
    elif what == 'duct':                # a wet layer at the ground that bends rays back
        P['z'][1:] -= P['z'][1] - P['z'][0] - .03
        P['rh'][:2], P['t'][:2] = (1.0, .02), (303.0, 308.0)
        P['cldh'] -= P['cldh'][0, 0] - P['z'][max(1, n // 4)]
    elif what == 'none':                # no ozone, no cloud water
        P['o3n'][:], P['denliq'][:] = 0.0, 0.0
    elif what == 'gap':                 # a missing value
        P['rh'][n // 2] = P['e'][n // 2] = np.nan
    elif what == 'up':                  # higher ground
        P['z'] += 0.5
        P['cldh'] += 0.5
    return P


def ref_of(P):
    return 1 + 3e-4 * np.exp(-P['z'] / 8)


def tau_of(P):
    return 0.05 * np.exp(-P['z'] / 3)


class Skip(Exception):
    pass


def tweak(r, o):
    sp = r.get(o['key'])
    if sp is None:
        raise Skip()
    if isinstance(sp.value, np.ndarray) and sp.value.ndim:
        i = o['i'] % len(sp.value)
        sp.value[i] = sp.value[i] * o['f']
        if isinstance(sp.uncer, np.ndarray) and sp.uncer.ndim:
            sp.uncer[i % len(sp.uncer)] = o['u']
    else:
        sp.value = sp.value * o['f']
        sp.uncer = o['u']


UTIL = {
    # name: (module, argument names taken from a profile)
    'mr2rh': ('u', ['p', 't', 'w']), 'mr2rho': ('u', ['w', 't', 'p']), 'mr2e': ('u', ['p', 'w']),
    'rho2rh': ('u', ['w', 't', 'p']), 'rho2mr': ('u', ['w', 't', 'p']), 'e2mr': ('u', ['p', 'e']),
    'satmix': ('u', ['p', 't']), 'satvap': ('u', ['t']), 'eswat_goffgratch': ('u', ['t']),
    'esice_goffgratch': ('u', ['t']), 'virtual_temperature': ('u', ['t', 'w']),
    'atmospheric_tickness': ('u', ['p', 't', 'w']), 'dewpoint2rh': ('u', ['t', 't']),
    'kgkg_to_kgm3': ('u', ['w', 'p', 't']), 'ppmv_to_moleculesm3': ('u', ['w', 'p', 't']),
    'to_kelvin': ('u', ['t']), 'to_celsius': ('u', ['t']), 'dilec12': ('u', ['p', 't']),
    'tk2b_mod': ('u', ['t', 't']), 'pressure_to_height': ('u', ['p']), 'height_to_pressure': ('u', ['z']),
    'vapor': ('r', ['t', 'rh']), 'refractivity': ('r', ['p', 't', 'e']),
    'bright': ('r', ['t', 'rh']),
}
ELEMENTWISE = [n for n in UTIL if n not in ('atmospheric_tickness', 'bright')] + ['ppmv2gkg']


def _series(v):
    import pandas as pd
    return pd.Series(v.copy(), index=range(5, 5 + len(v)))


SHAPES = {
    '2d': lambda v: np.stack([v, v[::-1], v]), 'F': lambda v: np.asfortranarray(np.stack([v, v[::-1]])),
    'f4': lambda v: v.astype('float32'), 'step': lambda v: np.repeat(v, 2)[::2], 'series': _series,
    '0d': lambda v: np.array(v[1]), 'scalar': lambda v: float(v[1]), 'masked': lambda v: np.ma.array(v, mask=[i == 1 for i in range(len(v))]),
    'ma': lambda v: np.ma.array(v.copy()), 'list': lambda v: v.tolist(), 'int': lambda v: np.round(v).astype(int),
}


def level(P, o):
    """The column, or one level of it."""
    i = o.get('only')
    return P if i is None else {k: v if k == 'cldh' else v[i:i + 1] for k, v in P.items()}


class World:
    def __init__(self, keep=True, ro=False):
        self.ro = ro
        import pyrtlib.absorption_model as am
        self.am = am
        self.cls = {'H': am.H2OAbsModel, 'O': am.O2AbsModel, 'N': am.N2AbsModel,
                    'L': am.LiqAbsModel, '3': am.O3AbsModel}
        self.lists = {'H': 'h2oll', 'O': 'o2ll', '3': 'o3ll'}
        self.objs = {}
        self.dicts = {}
        self.pool = {}
        self.owned = {}          # name -> (object, digest)
        self.kept = []           # [op index, object, digest]
        self.keep = keep
        self.max_kept = 14
        self.era_names = {}

    # -- inputs -----------------------------------------------------------------
    def own(self, name, v):
        if self.ro:
            for a in v.values() if isinstance(v, dict) else [v]:
                if isinstance(a, np.ndarray):
                    a.flags.writeable = False
        self.owned[name] = (v, digest(v))
        return v

    def prof(self, desc, tmp=False):
        if tmp:                          # arrays that nobody keeps: their memory is soon used again
            P = self.prof(desc)
            return {k: P[k].copy() for k in P}
        k = 'prof:%s' % (desc,)
        if k not in self.pool:
            self.pool[k] = make_profile(desc)
            self.own(k, self.pool[k])
        return self.pool[k]

    def arr(self, values, what='arr'):
        k = '%s:%s' % (what, list(values))
        if k not in self.pool:
            self.pool[k] = self.own(k, np.array(values))
        return self.pool[k]

    def lst(self, values, what='list'):
        k = '%s:%s' % (what, list(values))
        if k not in self.pool:
            self.pool[k] = self.own(k, list(values))
        return self.pool[k]

    def frq(self, o):
        """Frequencies as the caller passes them: an array, a list, a view."""
        h = o.get('how')
        if h == 'list':
            return self.lst(o['frq'], 'frq')
        if h == 'view':
            k = 'view:%s' % o['frq']
            if k not in self.pool:
                self.pool[k] = self.own(k, np.repeat(np.array(o['frq'], dtype=float), 2))
            return self.pool[k][::2]
        return self.arr(o['frq'])

    def again(self, only=None):
        """The caller has changed its own data: what is there now is what must stay."""
        for n, (v, _) in self.owned.items():
            if only is None or v is only:
                self.owned[n] = (v, digest(v))
        for e in self.kept:
            if only is None or e[1] is only:
                e[2] = digest(e[1])

    # -- operations ---------------------------------------------------------------
    def op_touch(self, o):
        """The caller fills its arrays with another column (same array objects)."""
        P = variant(self.prof(o['prof']), o['v'])
        for k, new in (('ref', ref_of(P)), ('tau', tau_of(P))):
            k = '%s:%s' % (k, o['prof'])
            if k in self.pool:
                self.pool[k][...] = new
        self.again()

    def op_retune(self, o):
        """The caller writes other frequencies into the array it uses for them."""
        self.arr(o['old'])[...] = o['new']
        self.again()

    def op_tweak(self, o):
        """The caller changes a value of one of its parameter sets in place."""
        tweak(self.dicts[o['d']], o)
        self.again(self.dicts[o['d']])

    def op_select(self, o):
        self.objs[o['x']].init_absmdl(o['m'])

    def op_select1(self, o):
        self.cls[o['cls']].model = o['m']

    def op_set_ll(self, o):
        self.cls[o['cls']].set_ll()

    def op_ll(self, o):
        ll = getattr(self.cls[o['cls']], self.lists[o['cls']])
        if isinstance(ll, property):
            raise AttributeError('no line list')
        out = {}
        for n in dir(ll):
            if n.startswith('_'):
                continue
            v = getattr(ll, n)
            if isinstance(v, (int, float, np.floating, np.integer)) or (
                    isinstance(v, np.ndarray) and v.dtype.kind in 'fiu'):
                out[n] = np.array(v, dtype=float)
        return out

    def op_mk(self, o):
        from pyrtlib.tb_spectrum import TbCloudRTE
        P = self.prof(o['prof'], o.get('tmp'))
        kw = {}
        if o.get('o3'):
            kw['o3n'] = P['o3n']
        if o.get('amu'):
            kw['amu'] = self.dicts[o['amu']]
        if o.get('absmdl'):
            kw['absmdl'] = o['absmdl']
        for k, n in (('rt', 'ray_tracing'), ('sat', 'from_sat'), ('cloudy', 'cloudy')):
            if o.get(k) is not None:
                kw[n] = o[k]
        if o.get('angles'):
            kw['angles'] = self.arr(o['angles'])
            if o.get('tmp'):
                kw['angles'] = kw['angles'].copy()
        col = [P[k] for k in ('z', 'p', 't', 'rh')]
        if o.get('col'):
            col = [self.own('col:%s:%d' % (o['x'], i), SHAPES[o['col']](a)) for i, a in enumerate(col)]
        if o.get('down'):
            col = [a[::-1] for a in col]
        f = self.frq(o)
        self.objs[o['x']] = TbCloudRTE(*col, f.copy() if o.get('tmp') else f, **kw)

    def op_drop(self, o):
        """The caller lets go of an object."""
        del self.objs[o['x']]

    def op_copy(self, o):
        """A copy of an object, as the caller's program or a pool of processes makes it."""
        x = self.objs[o['of']]
        if o['how'] == 'pickle':
            import pickle
            self.objs[o['x']] = pickle.loads(pickle.dumps(x))
        else:
            self.objs[o['x']] = deepcopy(x)

    def op_attr(self, o):
        v = o['v']
        setattr(self.objs[o['x']], o['n'], self.arr(v) if isinstance(v, list) else v)

    def op_sat(self, o):
        self.objs[o['x']].satellite = o['v']

    def op_emis(self, o):
        v = o['v']
        self.objs[o['x']].emissivity = self.arr(v, 'emis') if isinstance(v, list) else v

    def op_amu(self, o):
        self.objs[o['x']].set_amu(self.dicts[o['d']])

    def op_clouds(self, o):
        P = self.prof(o['prof'])
        h, ice, liq, cl = P['cldh'], P['denice'], P['denliq'], o.get('cl')
        if cl:
            h, ice, liq, z = h.copy(), ice.copy(), liq.copy(), P['z']
            n = len(z)
            if cl == 'off':                  # between the levels
                h += 0.0137
            elif cl == 'high':
                h, ice, liq = np.array([[z[n // 2]], [z[n // 2 + 1]]]), np.roll(ice, 1), np.roll(liq, 1)
            elif cl == 'two':
                h = np.array([[z[1], z[n // 2]], [z[2], z[n // 2 + 1]]])
            elif cl == 'thin':
                ice *= 0.1
                liq *= 0.2
            elif cl == 'top':
                h, ice, liq = np.array([[z[n - 3]], [z[n - 2]]]), ice[::-1].copy(), liq[::-1].copy()
            elif cl in ('ice', 'water', 'empty'):
                if cl != 'ice':
                    ice[:] = 0
                if cl != 'water':
                    liq[:] = 0
            self.nclouds = getattr(self, 'nclouds', 0) + 1
            for k, v in (('h', h), ('ice', ice), ('liq', liq)):
                self.own('clouds:%d:%s' % (self.nclouds, k), v)
        self.objs[o['x']].init_cloudy(h, ice, liq)

    def op_exec(self, o):
        return self.objs[o['x']].execute(o.get('bt', True))

    # spectroscopic parameters
    def op_params(self, o):
        from pyrtlib.uncertainty import SpectroscopicParameter as SP
        f = {'w': SP.water_parameters, 'o': SP.oxygen_parameters, '3': SP.ozono_parameters}[o['kind']]
        r = f(o['m'])
        self.dicts[o['d']] = self.own('dict ' + o['d'], r if o.get('raw') else deepcopy(r))
        return r

    def op_merge(self, o):
        r = {}
        for s in o['src']:
            r.update(deepcopy(self.dicts[s]))
        self.dicts[o['d']] = self.own('dict ' + o['d'], r)

    def op_edit(self, o):
        r = deepcopy(self.dicts[o['src']])
        tweak(r, o)
        self.dicts[o['d']] = self.own('dict ' + o['d'], r)

    def op_setp(self, o):
        from pyrtlib.uncertainty import SpectroscopicParameter as SP
        SP.set_parameters(self.dicts[o['d']])

    def op_perturb(self, o):
        from pyrtlib.uncertainty import AbsModUncertainty
        a = [self.lst(o['what']), o['mode'], o['i']]
        f = AbsModUncertainty.parameters_perturbation
        d = o.get('dflt')
        r = f(*a) if not d else f() if d == 1 else f(mode=a[1], index=a[2]) if d == 2 else f(mode=a[1])
        self.dicts[o['d']] = self.own('dict ' + o['d'], r if o.get('raw') else deepcopy(r))
        return r

    # direct use of the absorption models
    def op_absorb(self, o):
        am = self.am
        P = self.prof(o['prof'], o.get('tmp'))
        k, f = o['kind'], o['f']
        n = len(P['z'])
        i = o['lev'] % n
        amu = self.dicts[o['amu']] if o.get('amu') else None
        t, p, e = P['t'][i], P['p'][i], P['e'][i]
        if k == 'h2o':
            return am.H2OAbsModel().h2o_absorption(p / 10 - e / 10, 300.0 / t, e / 10, f, amu)
        if k == 'o2':
            return am.O2AbsModel().o2_absorption(p / 10 - e / 10, 300.0 / t, e / 10, f, amu)
        if k == 'o3':
            return am.O3AbsModel().o3_absorption(t, p, f, P['o3n'][i], amu)
        if k == 'n2':
            return am.N2AbsModel.n2_absorption(t, p, f)
        if k == 'liq':
            return am.LiqAbsModel.liquid_water_absorption(o.get('w', 0.2), f, t)
        from pyrtlib.rt_equation import RTEquation as R
        P = level(P, o)
        if k == 'clear':
            return R.clearsky_absorption(P['p'], P['t'], P['e'], f, P['o3n'] if o.get('o3') else None, amu)
        if k == 'cloudy':
            return R.cloudy_absorption(P['t'], P['denliq'], P['denice'], f)
        raise ValueError(k)

    # helpers
    def op_wf_mk(self, o):
        from pyrtlib.weighting_functions import WeightingFunctions
        P = self.prof(o['prof'], o.get('tmp'))
        self.objs[o['x']] = WeightingFunctions(P['z'], P['p'], P['t'], P['rh'], o['step'])

    def op_wf_set(self, o):
        v = o['v']
        if o['attr'] == 'frequencies':
            v = self.arr(v) if isinstance(v, list) else v
        elif o['attr'] == 'bandpass' and v is not None:
            k = 'bp:%s' % v
            if k not in self.pool:
                self.pool[k] = self.own(k, np.array(v))
            v = self.pool[k]
        elif isinstance(v, list):
            v = self.lst(v)
        setattr(self.objs[o['x']], o['attr'], v)

    def op_wf_get(self, o):
        w = self.objs[o['x']]
        return {'frequencies': w.frequencies, 'satellite': w.satellite, 'emissivity': w.emissivity,
                'model': w.model, 'angle': w.angle, 'bandpass': w.bandpass,
                'legend_labels': w.legend_labels}

    def op_wf_gen(self, o):
        return self.objs[o['x']].generate_wf()

    def op_wf_plot(self, o):
        import matplotlib.pyplot as plt
        w = self.objs[o['x']]
        n, m = 1 if w.frequencies is None else len(w.frequencies), len(w.zinterp)
        wgt = self.arr_wgt(n, m)
        seen = []
        real, mine = plt.show, plt.get_fignums()

        def show(*a, **k):
            ax = plt.gca().figure.axes[0]
            seen.append([[l.get_label() for l in ax.lines if not l.get_label().startswith('_')],
                         [np.asarray(l.get_xdata(), float) for l in ax.lines],
                         [np.asarray(l.get_ydata(), float) for l in ax.lines],
                         [t.get_text() for t in ax.texts]])
        plt.show = show
        ylim = o.get('ylim')
        if ylim:
            ylim = (w.zinterp[0], w.zinterp[min(ylim, m - 1)])
        try:
            if o.get('grouped'):
                g = o['grouped']
                w.plot_wf_grouped(wgt, o.get('title', ''), ylim, self.lst(g), self.lst(['g%d' % i for i in range(len(g))]))
            else:
                w.plot_wf(wgt, o.get('title', ''), ylim, o.get('xlim'), legend=o.get('legend', True),
                          normalized=o.get('normalized', False), dpi=20, figsize=(2, 3))
        finally:
            plt.show = real
            for k in plt.get_fignums():
                if k not in mine:
                    plt.close(k)
        return seen

    def arr_wgt(self, n, m):
        k = 'wgt:%d:%d' % (n, m)
        if k not in self.pool:
            self.pool[k] = self.own(k, np.random.RandomState(n * 1000 + m).uniform(0.01, 1, (n, m)))
        return self.pool[k]

    def op_ext_mk(self, o):
        from pyrtlib.climatology import ProfileExtrapolation
        self.objs[o['x']] = ProfileExtrapolation(o.get('mode', 'ITU-Annex1'))

    def op_ext_height(self, o):
        self.objs[o['x']].height = self.arr(o['v'], 'height') if o['v'] is not None else None

    def op_ext_get(self, o):
        return np.array(self.objs[o['x']].height)

    def op_ext_call(self, o):
        x, f = self.objs[o['x']], o['fn']
        if f == 'profile_extrapolation':
            P = self.prof(o['prof'], o.get('tmp'))
            return x.profile_extrapolation(o['lat'], o['month'], P['z'], (P['p'], P['t'], P['rh']))
        h = self.arr(o['h'], 'h')
        if o.get('tmp'):
            h = h.copy()
        if f in ('temperature', 'pressure', 'water_vapour_density'):
            return getattr(x, f)(o['lat'], h, o['season'])
        return getattr(x, f)(h, *o.get('args', []))

    def op_clim(self, o):
        from pyrtlib.climatology import AtmosphericProfiles as A
        f, a = o['fn'], o.get('arg')
        if f == 'atm_profiles':
            return A.atm_profiles()
        if isinstance(a, list):
            k = 'ids:%s' % a
            if k not in self.pool:
                self.pool[k] = self.own(k, np.array(a))
            a = self.pool[k]
        return getattr(A, f)(a)

    def op_covmat(self, o):
        import pyrtlib.uncertainty.covariance_matrix as c
        return {n: np.array(getattr(c, n)) for n in ('R17_111', 'R17_112', 'R19')}

    def op_models(self, o):
        return self.am.AbsModel.implemented_models()

    def op_util(self, o):
        import pyrtlib.utils as u
        from pyrtlib.rt_equation import RTEquation as R
        f = o['fn']
        if f in ('get_frequencies', 'get_frequencies_sat', 'constants', 'gas_mass'):
            return getattr(u, f)(*o.get('args', []))
        P = level(self.prof(o['prof'], o.get('tmp')), o)
        if f == 'ppmv2gkg':
            return u.ppmv2gkg(P['w'], o['args'][0])
        if f == 'ray_tracing':
            return R.ray_tracing(P['z'], self.ref(o['prof']), o['args'][0], 0.0)
        if f == 'exponential_integration':
            return R.exponential_integration(True, P['e'], P['z'], 1, len(P['z']), 1)
        if f == 'cloud_integrated_density':
            return R.cloud_integrated_density(P['denliq'], P['z'], self.arr([1.0]), self.arr([3.0]))
        if f == 'planck':
            return R.planck(o['args'][0], P['t'], self.tau(o['prof']), *o['args'][1:])
        if f == 'cloud_radiating_temperature':
            tau = self.tau(o['prof'])
            return R.cloud_radiating_temperature(1.0, 3.0, 0.001 * o['args'][0], np.cumsum(tau),
                                                 np.cumsum(tau) + 1)
        if f == 'uncertainty_propagation':
            from pyrtlib.uncertainty import AbsModUncertainty
            return AbsModUncertainty.uncertainty_propagation(o['args'][0], P['p'], P['t'], P['rh'], P['w'],
                                                             *o['args'][1:])
        m, names = UTIL[f]
        return getattr(u if m == 'u' else R, f)(*([self.shaped(o, a, P[a]) for a in names] + o.get('args', [])))

    def shaped(self, o, a, v):
        """The same values as another kind of array, made for this call."""
        how = o.get('shape')
        if not how:
            return v
        v = SHAPES[how](v)
        return self.own('shape:' + a, v)

    def ref(self, desc):
        k = 'ref:%s' % (desc,)
        if k not in self.pool:
            self.pool[k] = self.own(k, ref_of(self.prof(desc)))
        return self.pool[k]

    def tau(self, desc):
        k = 'tau:%s' % (desc,)
        if k not in self.pool:
            self.pool[k] = self.own(k, tau_of(self.prof(desc)))
        return self.pool[k]

    # web archives
    def op_wy(self, o):
        from pyrtlib.apiwebservices import WyomingUpperAir
        df = WyomingUpperAir.request_data(datetime(*o['t']), o['site'])
        return [df, df.attrs]

    def op_stations(self, o):
        from pyrtlib.apiwebservices import WyomingUpperAir
        if o.get('region') is None:
            return WyomingUpperAir.get_stations()
        return WyomingUpperAir.get_stations(o['region'])

    def op_urlopen(self, o):
        from pyrtlib.apiwebservices.webservices import session_manager
        kw = {}
        for n, v in (o.get('kw') or {}).items():
            k = 'kw:%s:%s' % (n, v)
            if k not in self.pool:
                self.pool[k] = self.own(k, dict(v) if isinstance(v, dict) else v)
            kw[n] = self.pool[k]
        return session_manager.urlopen(o['url'], **kw).read()

    def op_igra(self, o):
        from pyrtlib.apiwebservices import IGRAUpperAir
        t = o['t']
        t = [datetime(*x) for x in t] if isinstance(t[0], list) else datetime(*t)
        if isinstance(t, list):
            k = 'times:%s' % o['t']
            if k not in self.pool:
                self.pool[k] = self.own(k, t)
            t = self.pool[k]
        df, h = IGRAUpperAir.request_data(t, o['site'], beg2021=o.get('beg2021', False), derived=o.get('derived', False))
        return [df, h, df.attrs, h.attrs]

    def op_era_get(self, o):
        from pyrtlib.apiwebservices import ERA5Reanalysis
        d = ARC.dir(o['dir'])
        p = ERA5Reanalysis.request_data(d, datetime(*o['t']), tuple(o['lonlat']), *([o['res'], o['off']] if o.get('res') else []))
        return os.path.relpath(p, ARC.root)

    def op_era_read(self, o):
        from pyrtlib.apiwebservices import ERA5Reanalysis
        p = self.objs[o['x']]
        df = ERA5Reanalysis.read_data(os.path.join(ARC.root, p), tuple(o['lonlat']))
        return df

    def era(self, i, o):
        """Run an ERA5 operation; the outcome carries what the directory held."""
        me = _thread.get_ident()
        f = o.get('fault')
        if o['op'] == 'era_get':
            from . import era as E
            E.ARC.dir(o['dir'])
            final = self.era_name(o)
            if final is not None:
                self.objs[o['x']] = final
            st = {'fault': f, 'fmt': o.get('fmt', 'NETCDF4'), 'pieces': o.get('pieces', 3), 'n': 0,
                  'final': os.path.join(ARC.root, final) if final else None, 'seen': False, 'fired': False}
            ARC.cur[me] = st
            before = len(ARC.issues)
            try:
                out = self._call(i, o)
            except E.SimCrash:
                out = ('raise', 'SimCrash', '', ['SimCrash'])
            finally:
                ARC.cur.pop(me, None)
            if st.get('snap'):
                ARC.restore(st)
                out = ('raise', 'SimCrash', '', ['SimCrash'])
            info = {'fired': st['fired'], 'steps': st['n'], 'issues': ARC.issues[before:], 'final': final}
            if out[0] == 'ok':
                self.objs[o['x']] = out[1][1]
                info['at'] = ARC.state(os.path.join(ARC.root, out[1][1]))
            elif final:
                info['at'] = ARC.state(os.path.join(ARC.root, final))
            return out + (info,)
        p = os.path.join(ARC.root, self.objs[o['x']]) if ARC.root else '/nonexistent'
        damaged, classic = None, False
        if f and f['k'] == 'trunc' and os.path.exists(p):
            with open(p, 'rb') as fh:
                whole = fh.read()
            n = int(len(whole) * f['at'])
            with open(p, 'wb') as fh:
                fh.write(whole[:n])
            damaged = n < len(whole)
            classic = whole[:3] == b'CDF'
        at = ARC.state(p)
        try:
            out = self._call(i, o)
        finally:
            if damaged is not None:
                with open(p, 'wb') as fh:
                    fh.write(whole)
        return out + ({'at': at, 'fired': bool(damaged), 'classic': classic, 'whole': ARC.state(p)},)

    def era_name(self, o):
        """The path a download of `o` ends up at (learnt in a forked copy)."""
        k = json.dumps([o[x] for x in ('dir', 't', 'lonlat')] + [o.get('res'), o.get('off')])
        if k in self.era_names:
            return self.era_names[k]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                H.sched = None
                H.nc = None
                ARC.root = tempfile.mkdtemp(prefix='verif-dry-')
                ARC.cur = {_thread.get_ident(): {'fault': None, 'fmt': 'NETCDF4', 'pieces': 1, 'n': 0, 'final': None,
                                                 'seen': False, 'fired': False}}
                out = self._call(0, {x: y for x, y in o.items() if x != 'fault'})
                ARC.cleanup()
                os.write(w, (out[1][1] if out[0] == 'ok' else '').encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fh:
            n = fh.read().decode()
        os.waitpid(pid, 0)
        self.era_names[k] = n or None
        return self.era_names[k]

    def op_scribble(self, o):
        """The caller overwrites, in place, what an earlier call returned."""
        if not self.kept:
            raise Skip()
        e = self.kept.pop(o['k'] % len(self.kept))
        scribble(e[1])

    def ready(self, o):
        """Do the objects the operation refers to exist (their creation may have failed)?"""
        k = o['op']
        if k == 'copy':
            return o['of'] in self.objs
        if 'x' in o and k not in ('mk', 'wf_mk', 'ext_mk', 'era_get') and o['x'] not in self.objs:
            return False
        need = list(o['src']) if isinstance(o.get('src'), list) else [o['src']] if o.get('src') else []
        if o.get('amu'):
            need.append(o['amu'])
        if k in ('amu', 'setp', 'tweak'):
            need.append(o['d'])
        return all(d in self.dicts for d in need)

    # -- execution ---------------------------------------------------------------
    def op_env(self, o):
        """The caller's program changes settings of its own process."""
        procenv.apply(o['k'], o['v'])

    def op_import(self, o):
        """What importing the library changes in a process (in a forked copy)."""
        import importlib
        import pickle
        import sys
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = ['the import failed']
            try:
                os.close(r)
                names = sorted(n for n in sys.modules if n == 'pyrtlib' or n.startswith('pyrtlib.'))
                random.Random(o['order']).shuffle(names)
                for n in names:
                    del sys.modules[n]
                procenv.customise(random.Random(o['order'] + 1))
                a = procenv.snapshot()
                for n in names:
                    importlib.import_module(n)
                b = procenv.snapshot()
                # filters for messages of libraries it uses are its own business
                a.pop('warning filters'), b.pop('warning filters')
                out = procenv.changes(a, b)
            except BaseException as e:
                out = ['the import failed: %r' % e]
            finally:
                os.write(w, pickle.dumps(out))
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fh:
            out = pickle.loads(fh.read())
        os.waitpid(pid, 0)
        return out

    def call(self, i, o):
        """Run one operation; returns its outcome."""
        if o.get('_via'):
            return procenv.via(o['_via'], lambda: self.call(i, {k: v for k, v in o.items() if k != '_via'}))
        if not self.ready(o):
            return ('skip',)
        if o['op'] in ('wy', 'stations', 'igra', 'urlopen'):
            NET.begin(o.get('net'))
            try:
                out = self._call(i, o)
            finally:
                info = NET.end()
            return out + (info,)
        if o['op'] in ('era_get', 'era_read'):
            return self.era(i, o)
        return self._call(i, o)

    def _call(self, i, o):
        try:
            r = getattr(self, 'op_' + o['op'])(o)
        except (SimAbort, SimDeadlock):
            raise
        except Skip:
            return ('skip',)
        except SimCrash:
            raise
        except BaseException as e:
            return ('raise', type(e).__name__, str(e).replace(str(ARC.root), '')[:120], [c.__name__ for c in type(e).__mro__])
        n = norm(r)
        if self.keep and r is not None:
            self.kept.append([i, r, digest(r)])
            if len(self.kept) > self.max_kept:
                self.kept.pop(0)
        return ('ok', n)

    def call_faulty(self, i, o, f):
        """Run one operation under a fault. Returns (outcome, fired, fault as placed)."""
        k = f['t']
        if k in ('ki', 'mem'):
            if f.get('site') is None:
                f = choose_site(self, i, o, f)
                if f is None:
                    return self.call(i, o), False, None
            inj = Injector(f['site'], f['nth'], 'KI' if k == 'ki' else 'MEM')
            with inj:
                r = self.call(i, o)
            return r, inj.fired, f
        if k == 'nc':
            plan = FaultPlan(f)
            H.nc = plan.nc
            try:
                r = self.call(i, o)
            finally:
                H.nc = None
            return r, plan.fired > 0, f
        if k == 'loadtxt':
            plan = FaultPlan(f)
            H.loadtxt = plan.loadtxt
            try:
                r = self.call(i, o)
            finally:
                H.loadtxt = None
            return r, plan.fired > 0, f
        if k == 'nofile':
            # the process really runs out of file descriptors (real netCDF library)
            soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
            used = len(os.listdir('/proc/self/fd'))
            old = seams.USE_MEM[0]
            seams.USE_MEM[0] = False
            resource.setrlimit(resource.RLIMIT_NOFILE, (used - 1 + f.get('spare', 0), hard))
            try:
                r = self.call(i, o)
            finally:
                resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
                seams.USE_MEM[0] = old
            return r, r[0] == 'raise', f
        raise ValueError(k)

    # -- invariants --------------------------------------------------------------
    def changed_inputs(self):
        out = []
        for n, (v, d) in self.owned.items():
            d2 = digest(v)
            if d2 != d:
                out.append(n)
                self.owned[n] = (v, d2)
        return out

    def changed_results(self, upto):
        out = []
        for e in self.kept:
            if e[0] < upto:
                d2 = digest(e[1])
                if d2 != e[2]:
                    out.append(e[0])
                    e[2] = d2
        return out


def scribble(v, depth=0):
    if depth > 4:
        return
    if isinstance(v, pd.DataFrame):
        for c in list(v.columns):
            a = v[c].values
            if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.flags.writeable:
                a[...] = -7.5
            if v[c].dtype.kind in 'fi':
                v[c] = -7.5
        return
    if isinstance(v, np.ndarray):
        if v.dtype.kind in 'fciu' and v.flags.writeable:
            v[...] = -3
    elif isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, depth + 1)
        if depth > 1 and len(v) % 2 == 0:    # (sometimes the names stay)
            for k in v:
                v[k] = 'scribble'
        else:
            v.clear()
    elif isinstance(v, list):
        for x in v:
            scribble(x, depth + 1)
        v[:] = ['scribble']
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, depth + 1)
    elif hasattr(v, 'value') and hasattr(v, 'uncer'):
        scribble(v.value, depth + 1)
        scribble(v.uncer, depth + 1)
        v.value = -9.0
        v.uncer = -9.0


def choose_site(world, i, o, f):
    """Dry-run the operation in a forked copy to learn the event sites it passes, then
    place the fault on one of them (decided by the seed in f['pick'])."""
    import random
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            inj = Injector(collect=True)
            with inj:
                world.call(i, o)
            kinds = ('entry', 'cret', 'jump') if f['t'] == 'ki' else ('call',)
            c = {s: n for s, n in inj.counts.items() if s.split(':')[2] in kinds}
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(c, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    c = pickle.loads(data) if data else {}
    if not c:
        return None
    rng = random.Random(f['pick'])
    avoid = f.get('avoid')
    sites = sorted(s for s in c if not (avoid and any(a in s for a in avoid)))
    if not sites:
        return None
    s = sites[rng.randrange(len(sites))]
    n = c[s]
    nth = rng.choice([1, n, rng.randint(1, n)])
    return {'t': f['t'], 'site': s, 'nth': nth}
