"""Stub of the Copernicus client (cdsapi) in front of a simulated archive and a real
scratch directory: downloads arrive in pieces, and every piece is a fault, crash and
switch point."""
import errno
import hashlib
import os
import shutil
import tempfile
import _thread
from datetime import datetime, timedelta

import numpy as np

from . import seams
from .seams import H

SHORT = {'relative_humidity': 'r', 'specific_cloud_ice_water_content': 'ciwc', 'specific_cloud_liquid_water_content': 'clwc',
         'specific_humidity': 'q', 'specific_rain_water_content': 'crwc', 'specific_snow_water_content': 'cswc',
         'ozone_mass_mixing_ratio': 'o3', 'temperature': 't'}
LEVELS = [1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 750,
          775, 800, 825, 850, 875, 900, 925, 950, 975, 1000]


class SimCrash(BaseException):
    """The process dies here; only the directory survives."""


def field(name, hours, lev, lat, lon):
    """Value of a variable: broadcasts over level, latitude and longitude."""
    h = (hours % 971) / 971.0
    w = np.sin(lat * 1.7 + len(name)) + np.cos(lon * 1.3 - len(name)) + 2.5
    if name == 't':
        return 205 + 0.08 * lev + w + 4 * h
    if name == 'r':
        return 20 + 0.03 * lev + 4 * w + 9 * h
    if name == 'q':
        return (1e-6 + 9e-9 * lev ** 2) * (0.5 + 0.1 * w) * (1 + h)
    k = {'clwc': 1, 'ciwc': 2, 'crwc': 3, 'cswc': 4, 'o3': 5}[name]
    return 1e-6 * k * (w + lev / 900.0 + h)


def axis(area, step):
    n, w, s, e = area
    nl = int(np.floor((n - s) / step + 1e-6)) + 1
    nm = int(np.floor((e - w) / step + 1e-6)) + 1
    return n - step * np.arange(nl), w + step * np.arange(nm)


def key(name, req):
    """The request as the archive understands it (order of list entries is irrelevant)."""
    hour = str(req['time']).split(':')[0]
    return (name, req['product_type'], req['format'], int(req['year']), int(req['month']), int(req['day']), int(hour),
            tuple(round(float(x), 6) for x in req['area']), tuple(round(float(x), 6) for x in req['grid']),
            tuple(sorted(req['variable'])), tuple(sorted(int(x) for x in req['pressure_level'])))


def wanted(t, lonlat, res, off):
    """The key of the request that asks for exactly this time and place."""
    lon, lat = lonlat
    return ('reanalysis-era5-pressure-levels', 'reanalysis', 'netcdf', t[0], t[1], t[2], t[3],
            tuple(round(x, 6) for x in (lat + off, lon - off, lat - off, lon + off)), (round(res, 6),) * 2,
            tuple(sorted(SHORT)), tuple(LEVELS))


_cache = {}


def payload(k, fmt):
    """The complete file the archive delivers for a request."""
    if (k, fmt) in _cache:
        return _cache[(k, fmt)]
    if k[0] != 'reanalysis-era5-pressure-levels' or k[1] != 'reanalysis' or k[2] != 'netcdf':
        raise Exception('the request you have submitted is not valid')
    hours = int((datetime(*k[3:7]) - datetime(1900, 1, 1)).total_seconds() // 3600)
    lat, lon = axis(k[7], k[8][0])
    lev = np.array(k[10])
    fd, tmp = tempfile.mkstemp(suffix='.nc')
    os.close(fd)
    try:
        d = seams.real_Dataset(tmp, 'w', format=fmt)
        for n, v, ty in (('longitude', lon, 'f8'), ('latitude', lat, 'f8'), ('level', lev, 'i4'), ('time', [hours], 'i4')):
            d.createDimension(n, len(v))
            d.createVariable(n, ty, (n,))[:] = v
        for v in k[9]:
            s = SHORT[v]
            x = d.createVariable(s, 'f8', ('time', 'level', 'latitude', 'longitude'))
            x[0] = field(s, hours, lev[:, None, None].astype(float), lat[None, :, None], lon[None, None, :])
        d.close()
        with open(tmp, 'rb') as fh:
            b = fh.read()
    finally:
        os.remove(tmp)
    _cache[(k, fmt)] = b
    return b


def diagonal(k, lonlat):
    """The points of the diagonal about nearest to lonlat (see known-findings.json, era-diagonal)."""
    lat, lon = axis(k[7], k[8][0])
    a, b, c, d = np.radians(lonlat[1]), np.radians(lonlat[0]), np.radians(lat), np.radians(lon)
    h = np.sqrt(np.sin((c - a) / 2) ** 2 + np.cos(a) * np.cos(c) * np.sin((d - b) / 2) ** 2)
    return [[lon[i], lat[i]] for i in np.flatnonzero(h <= h.min() * 1.03)]


def truth(k, lonlat):
    """Columns read_data has to return for the grid point nearest to lonlat."""
    hours = int((datetime(*k[3:7]) - datetime(1900, 1, 1)).total_seconds() // 3600)
    lat, lon = axis(k[7], k[8][0])
    la = lat[np.argmin(abs(lat - lonlat[1]))]
    lo = lon[np.argmin(abs(lon - lonlat[0]))]
    lev = np.array(sorted(k[10], reverse=True), dtype=float)
    c = {'p': lev}
    for s in ('t', 'r', 'clwc', 'ciwc', 'crwc', 'cswc', 'o3', 'q'):
        c[s] = field(s, hours, lev, la, lo)
    c['rh'] = c.pop('r') / 100
    c['time'] = [datetime(*k[3:7])] * len(lev)
    return c


class Archive:
    """State of the simulated download service and of the scratch directory of one run."""

    def __init__(self):
        self.root = None
        self.cur = {}          # thread -> state of the download in progress
        self.known = {}        # digest of a complete payload -> key
        self.issues = []
        self.steps = 0

    def dir(self, name):
        if self.root is None:
            self.root = tempfile.mkdtemp(prefix='verif-era-')
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        return p

    def cleanup(self):
        if self.root:
            shutil.rmtree(self.root, ignore_errors=True)
            self.root = None

    def state(self, path):
        """What is at `path`: None, the key of a complete file, or 'partial'."""
        try:
            with open(path, 'rb') as fh:
                b = fh.read()
        except FileNotFoundError:
            return None
        return self.known.get(hashlib.sha1(b).hexdigest(), 'partial')

    def step(self, what):
        """One instant of a download: the process may die or be preempted here."""
        self.steps += 1
        s = H.sched
        if s is not None and s.manages(_thread.get_ident()):
            s.point(('era:' + what, 0))
        st = self.cur.get(_thread.get_ident())
        if st is None:
            return
        st['n'] += 1
        if st['final'] and self.state(st['final']) == 'partial' and not st['seen']:
            st['seen'] = True
            self.issues.append('after step %d (%s) of a download the file %s exists but is incomplete: a crash at '
                               'this point leaves it behind' % (st['n'], what, os.path.basename(st['final'])))
        f = st['fault']
        if f and f['k'] == 'crash' and st['n'] == f['step'] and not st.get('snap'):
            st['snap'] = tempfile.mkdtemp(prefix='verif-snap-')
            shutil.copytree(self.root, os.path.join(st['snap'], 's'))
            st['fired'] = True
            raise SimCrash()

    def restore(self, st):
        shutil.rmtree(self.root)
        shutil.copytree(os.path.join(st['snap'], 's'), self.root)
        shutil.rmtree(st['snap'])


ARC = Archive()


class Result:
    def __init__(self, name, req, st):
        self.key = key(name, req)
        self.st = st
        self.data = payload(self.key, st['fmt'])
        ARC.known[hashlib.sha1(self.data).hexdigest()] = self.key
        self.content_length = len(self.data)
        self.content_type = 'application/x-netcdf'
        self.location = 'https://cds.sim/file.nc'

    def download(self, target=None):
        st = self.st
        f = st['fault'] or {}
        target = os.fspath(target or 'download.nc')
        data = self.data
        n = max(1, st['pieces'])
        cut = None
        if f.get('k') in ('raise', 'enospc', 'ki', 'mem', 'short'):
            cut = int(len(data) * f['at'])
        pos = 0
        with open(target, 'wb') as fh:
            ARC.step('opened')
            size = max(1, -(-len(data) // n))
            while pos < len(data):
                end = min(len(data), pos + size)
                if cut is not None and end >= cut:
                    fh.write(data[pos:cut])
                    fh.flush()
                    ARC.step('piece')
                    st['fired'] = True
                    k = f['k']
                    if k == 'short':
                        break
                    if k == 'enospc':
                        raise OSError(errno.ENOSPC, 'No space left on device')
                    if k == 'ki':
                        raise KeyboardInterrupt()
                    if k == 'mem':
                        raise seams.InjectedMemoryError('simulated allocation failure')
                    import requests
                    raise requests.exceptions.ConnectionError('Connection reset by peer')
                fh.write(data[pos:end])
                fh.flush()
                pos = end
                ARC.step('piece')
        if cut is not None:
            raise Exception('Download failed: downloaded %d byte(s) out of %d' % (cut, len(data)))
        ARC.step('done')
        return target


class Client:
    def __init__(self, *a, **k):
        st = ARC.cur.get(_thread.get_ident())
        if st and st['fault'] and st['fault']['k'] == 'nokey':
            st['fired'] = True
            raise Exception('Missing/incomplete configuration file: /root/.cdsapirc')

    def retrieve(self, name, request, target=None):
        st = ARC.cur.get(_thread.get_ident()) or {'fault': None, 'fmt': 'NETCDF4', 'pieces': 3, 'n': 0, 'final': None, 'seen': False}
        ARC.step('submit')
        f = st['fault'] or {}
        if f.get('k') == 'reject':
            st['fired'] = True
            raise Exception('the request you have submitted is not valid')
        r = Result(name, request, st)
        if target is not None:
            r.download(target)
        return r


def install():
    import sys
    import types
    m = types.ModuleType('cdsapi')
    m.Client = Client
    sys.modules['cdsapi'] = m
    import pyrtlib.apiwebservices.erafive as e
    e.cdsapi = m
    real_replace, real_rename = os.replace, os.rename

    def step_around(fn, what):
        def g(*a, **k):
            st = ARC.cur.get(_thread.get_ident())
            if st is None:
                return fn(*a, **k)
            ARC.step('before-' + what)
            f = st['fault'] or {}
            if f.get('k') == 'commit' and not st['fired']:
                st['fired'] = True
                raise OSError(errno.EIO, 'Input/output error')
            if len(a) > 1 and inside(a[1]) and not inside(a[0]):
                raise OSError(errno.EXDEV, 'Invalid cross-device link', os.fspath(a[0]))
            r = fn(*a, **k)
            ARC.step('after-' + what)
            return r
        return g

    def inside(p):
        # the directory of the user is a file system of its own
        return ARC.root is not None and os.path.abspath(os.fspath(p)).startswith(ARC.root + os.sep)

    def copyfile(src, dst, **k):
        st = ARC.cur.get(_thread.get_ident())
        if st is None or not inside(dst) or os.path.abspath(os.fspath(src)).startswith(st.get('snap') or '/\0'):
            return real_copyfile(src, dst, **k)
        with open(src, 'rb') as fh:
            data = fh.read()
        with open(dst, 'wb') as fh:
            ARC.step('opened')
            fh.write(data[:len(data) // 2])
            fh.flush()
            ARC.step('piece')
            if (st['fault'] or {}).get('k') == 'commit' and not st['fired']:
                st['fired'] = True
                raise OSError(errno.ENOSPC, 'No space left on device')
            fh.write(data[len(data) // 2:])
        ARC.step('copied')
        return dst
    real_copyfile, shutil.copyfile = shutil.copyfile, copyfile
    os.replace = step_around(real_replace, 'replace')
    os.rename = step_around(real_rename, 'rename')
