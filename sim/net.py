"""Simulated network: sockets, clock and the three web archives pyrtlib talks to.

requests, urllib3 and http.client run unchanged; below them the socket is simulated.  The
script attached to an operation decides what happens to each of its HTTP requests: how the
bytes are cut and delayed, and which fault is injected.  The archives' content is a pure
function of what is asked for, so the exact answer to every request is known."""
import errno
import gzip
import io
import random
import socket
import ssl
import _thread
import time
import zipfile
import zlib
from datetime import datetime, timedelta
from urllib.parse import urlsplit, parse_qs, unquote

import numpy as np

from .seams import H

EPOCH = 1_750_000_000.0
MAX_CONNS = 60


# which edition of the archives this run meets
SALT = [0]


def content(kind, *what):
    return random.Random('/'.join(map(str, (kind, SALT[0]) + what)))


class SimHang(BaseException):
    """A call that would wait forever (a peer that stays silent and no time-out set)."""


class Net:
    def __init__(self):
        self.clock = {}           # thread -> simulated seconds since EPOCH
        self.cur = {}             # thread -> state of the operation in progress
        self.open = {}            # id(socket) -> description
        self.total = 0.0

    def now(self):
        return EPOCH + self.clock.get(_thread.get_ident(), 0.0)

    def advance(self, dt):
        me = _thread.get_ident()
        self.clock[me] = self.clock.get(me, 0.0) + dt
        self.total += dt
        st = self.cur.get(me)
        if st is not None and self.clock[me] - st['t0'] > 100_000:
            st['hang'] = 'still waiting after %d s' % (self.clock[me] - st['t0'])
            raise SimHang(st['hang'])

    # ---------------------------------------------------------------- operations
    def begin(self, script):
        me = _thread.get_ident()
        self.cur[me] = {'script': script or [], 'n': 0, 'conns': 0, 'reqs': [], 'hang': None, 'fired': [],
                        't0': self.clock.get(me, 0.0), 'slow': 0.0}

    def end(self):
        me = _thread.get_ident()
        st = self.cur.pop(me)
        return {'elapsed': round(self.clock.get(me, 0.0) - st['t0'], 3), 'conns': st['conns'],
                'reqs': st['reqs'], 'hang': st['hang'], 'fired': st['fired'], 'slow': round(st['slow'], 3)}

    def st(self):
        s = self.cur.get(_thread.get_ident())
        if s is None:
            # a socket used outside any operation (another thread of the library)
            s = next(iter(self.cur.values()), None)
        if s is None:
            raise OSError(errno.ENETUNREACH, 'Network is unreachable')
        return s


NET = Net()


def sched_point(name):
    s = H.sched
    if s is not None and s.manages(_thread.get_ident()):
        s.point(('net:' + name, 0))


# ------------------------------------------------------------------------ sockets
class SimRaw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        sock.refs += 1

    def readable(self):
        return True

    def readinto(self, b):
        d = self.sock.recv(len(b))
        b[:len(d)] = d
        return len(d)

    def close(self):
        if not self.closed:
            super().close()
            self.sock.refs -= 1
            self.sock.maybe_close()


class SimSocket:
    family, type, proto = socket.AF_INET, socket.SOCK_STREAM, 0

    def __init__(self, host, port, timeout):
        self.host, self.port = host, port
        self.timeout = timeout
        self.tls = False
        self.forged = False
        self.refs = 0
        self.closing = False
        self.out = b''
        self.events = []
        self.dead = None
        NET.open[id(self)] = '%s:%s' % (host, port)

    # the parts of the socket interface http.client and urllib3 use
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return ('192.0.2.1', self.port)

    def getsockname(self):
        return ('192.0.2.2', 40000)

    def fileno(self):
        return -1

    def shutdown(self, how):
        self.events = [('eof',)]

    def selected_alpn_protocol(self):
        return None

    def version(self):
        return 'TLSv1.3'

    def getpeercert(self, binary_form=False):
        return b'' if binary_form else {}

    def makefile(self, mode='r', buffering=None, **k):
        raw = SimRaw(self)
        if 'r' in mode:
            r = io.BufferedReader(raw, 8192 if buffering in (None, -1) else max(1, buffering))
            return r if 'b' in mode else io.TextIOWrapper(r, **k)
        raise ValueError(mode)

    def close(self):
        self.closing = True
        self.maybe_close()

    def maybe_close(self):
        if self.closing and self.refs <= 0:
            NET.open.pop(id(self), None)

    def __del__(self):
        NET.open.pop(id(self), None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readable_now(self):
        """What select() would say of an idle connection."""
        return bool(self.events) and self.events[0][0] in ('eof', 'reset', 'data')

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        sched_point('send')
        st = NET.st()
        if self.events and self.events[0][0] in ('reset', 'eof'):
            # the server has closed the connection meanwhile
            self.events = [('reset',)]
        self.out += bytes(data)
        if b'\r\n\r\n' not in self.out:
            return
        head, _, rest = self.out.partition(b'\r\n\r\n')
        clen = 0
        for l in head.split(b'\r\n')[1:]:
            if l.lower().startswith(b'content-length:'):
                clen = int(l.split(b':')[1])
        if len(rest) < clen:
            return
        self.out = rest[clen:]
        it = item(st)
        f = it.get('fault') or {}
        if f.get('k') == 'reset_send':
            st['fired'].append('reset_send')
            st['n'] += 1
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        line = head.split(b'\r\n')[0].decode('latin1').split(' ')
        st['n'] += 1
        st['reqs'].append([('https' if self.tls else 'http'), self.host, line[0], line[1]])
        self.events += respond(st, it, self, line[0], line[1])

    def recv(self, n, flags=0):
        sched_point('recv')
        st = NET.st()
        while True:
            if not self.events:
                self.wait_forever(st)
            ev = self.events[0]
            if ev[0] == 'data':
                d = ev[1]
                if len(d) > n:
                    self.events[0] = ('data', d[n:])
                    return d[:n]
                self.events.pop(0)
                return d
            if ev[0] == 'gap':
                if self.timeout is not None and ev[1] > self.timeout:
                    NET.advance(self.timeout)
                    self.events[0] = ('gap', ev[1] - self.timeout)
                    raise socket.timeout('timed out')
                self.events.pop(0)
                st['slow'] += ev[1]
                NET.advance(ev[1])
                continue
            if ev[0] == 'eof':
                return b''
            if ev[0] == 'reset':
                st['fired'].append('reset')
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if ev[0] == 'stall':
                if 'stall' not in st['fired']:
                    st['fired'].append('stall')
                self.wait_forever(st)
            if ev[0] == 'fired':
                st['fired'].append(ev[1])
                self.events.pop(0)

    def recv_into(self, b, nbytes=0, flags=0):
        d = self.recv(nbytes or len(b))
        b[:len(d)] = d
        return len(d)

    def wait_forever(self, st):
        if self.timeout is None:
            st['hang'] = 'waits for data from %s without any time-out' % self.host
            raise SimHang(st['hang'])
        NET.advance(max(self.timeout, 0.001))
        raise socket.timeout('timed out')


def create_connection(address, timeout=None, source_address=None, socket_options=None, **kw):
    host, port = address
    sched_point('connect')
    st = NET.st()
    st['conns'] += 1
    if st['conns'] > MAX_CONNS:
        st['hang'] = '%d connections opened by one call' % st['conns']
        raise SimHang(st['hang'])
    if timeout is not None and not isinstance(timeout, (int, float)):
        timeout = socket.getdefaulttimeout()       # "not given"
    it = item(st)
    f = it.get('fault') or {}
    k = f.get('k')
    if k in ('dns', 'refused', 'unreach', 'cstall'):
        st['n'] += 1
        st['fired'].append(k)
        if k == 'dns':
            raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
        if k == 'refused':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if k == 'unreach':
            raise OSError(errno.ENETUNREACH, 'Network is unreachable')
        if timeout is None:
            st['hang'] = 'waits for a connection to %s without any time-out' % host
            raise SimHang(st['hang'])
        NET.advance(max(timeout, 0.001))
        raise socket.timeout('timed out')
    NET.advance(0.02)
    return SimSocket(host.rstrip('.'), port, timeout)


def _std_create_connection(address, timeout=None, source_address=None, **kw):
    return create_connection(address, timeout)


def item(st):
    s = st['script']
    if st['n'] < len(s):
        return s[st['n']]
    return s[-1] if s and s[-1].get('again') else {}


def tls_wrap(sock, cert_reqs=None, ssl_context=None, assert_hostname=None, **kw):
    from urllib3.connection import _WrappedAndVerifiedSocket
    from urllib3.util.ssl_ import resolve_cert_reqs
    st = NET.st()
    it = item(st)
    k = (it.get('fault') or {}).get('k')
    need = ssl.CERT_REQUIRED
    if cert_reqs is not None:
        need = resolve_cert_reqs(cert_reqs)
    elif ssl_context is not None:
        need = ssl_context.verify_mode
    verified = need == ssl.CERT_REQUIRED and assert_hostname is not False
    if k == 'tls':
        st['n'] += 1
        st['fired'].append('tls')
        raise ssl.SSLError(1, '[SSL: TLSV1_ALERT_INTERNAL_ERROR] tlsv1 alert internal error')
    if k == 'mitm':
        st['fired'].append('mitm')
        if verified:
            st['n'] += 1
            raise ssl.SSLCertVerificationError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed')
        sock.forged = True
    sock.tls = True
    return _WrappedAndVerifiedSocket(socket=sock, is_verified=verified)


# ------------------------------------------------------------------------ HTTP
REASON = {200: 'OK', 202: 'Accepted', 204: 'No Content', 206: 'Partial Content', 302: 'Found', 400: 'Bad Request',
          403: 'Forbidden', 404: 'Not Found', 429: 'Too Many Requests', 500: 'Internal Server Error',
          502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout'}


def respond(st, it, sock, method, target):
    """Events on the connection after a request: the script decides the transport, the
    archive decides the content."""
    f = it.get('fault') or {}
    k = f.get('k')
    url = ('https' if sock.tls else 'http') + '://' + sock.host + target
    if k == 'stall_req':
        return [('stall',)]
    if k == 'drop_req':
        return [('fired', 'drop_req'), ('eof',)]
    if it.get('redir'):
        host = sock.host if it['redir'] == 'same' else 'mirror.' + sock.host.replace('mirror.', '')
        loc = ('https' if sock.tls else 'http') + '://' + host + target
        status, ctype, body, extra = 302, 'text/html', b'<html>moved</html>', ['Location: ' + loc]
    else:
        status, ctype, body = archive(url, forged=sock.forged)
        extra = []
    if k == 'status':
        st['fired'].append('status')
        status = f['code']
        if status == 206:
            body = body[:int(len(body) * f['at'])]
        elif status == 204:
            body = b''
        else:
            ctype = f.get('ctype', 'text/html')
            body = b'<html><body><h1>%d %s</h1></body></html>' % (status, REASON[status].encode())
            if f.get('after'):
                extra.append('Retry-After: %d' % f['after'])
    elif k == 'busy':
        st['fired'].append('busy')
        ctype = 'text/html'
        body = (b'<html><head><title>Sorry</title></head><body>Sorry, the server is too busy to process your request.'
                b'<p>Please try again later.</body></html>')
    elif k == 'empty':
        st['fired'].append('empty')
        body = b''
    elif k == 'cut':                       # a proxy forwards a shortened object as if complete
        st['fired'].append('cut')
        body = body[:int(len(body) * f['at'])]
    elif k == 'flip':
        st['fired'].append('flip')
        b = bytearray(body)
        if b:
            p = int(len(b) * f['at']) % len(b)
            b[p] ^= 1 << (f.get('bit', 0) % 8)
        body = bytes(b)
    head = ['HTTP/1.1 %d %s' % (status, REASON.get(status, 'X')), 'Content-Type: ' + ctype, 'Server: sim'] + extra
    style = it.get('style', 'len')
    if status == 204:
        style = 'len'
    if it.get('gzip') and body and status != 204:
        body = gzip.compress(body, mtime=0)
        head.append('Content-Encoding: gzip')
    if k == 'gzcut' and body:
        st['fired'].append('gzcut')
        if not it.get('gzip'):
            body = gzip.compress(body, mtime=0)
            head.append('Content-Encoding: gzip')
        b = bytearray(body)
        p = 10 + int((len(b) - 10) * f['at']) % max(1, len(b) - 10)
        b[p] ^= 0x55
        try:
            # damage that leaves the compressed stream without its end is hidden by the HTTP library
            zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(bytes(b))
            b = bytearray(body)
            b[-8 + p % 4] ^= 0x55
        except zlib.error:
            pass
        body = bytes(b)
    keep = it.get('keep', False)
    if style == 'len':
        n = len(body) + (f.get('extra', 7) if k == 'badlen' else 0)
        head.append('Content-Length: %d' % n)
        payload = body
    elif style == 'chunked':
        head.append('Transfer-Encoding: chunked')
        payload, i = b'', 0
        cs = max(1, it.get('cs', 700))
        while i < len(body):
            c = body[i:i + cs]
            payload += b'%x\r\n' % len(c) + c + b'\r\n'
            i += cs
        payload += b'0\r\n\r\n'
        if k == 'badchunk':
            payload = payload[:-5] + b'zz\r\nxx'
    else:
        keep = False
        payload = body
    head.append('Connection: ' + ('keep-alive' if keep else 'close'))
    if k == 'badstatus':
        st['fired'].append('badstatus')
        head[0] = 'garbage'
    wire = '\r\n'.join(head).encode('latin1') + b'\r\n\r\n' + payload
    if k in ('badlen', 'badchunk'):
        st['fired'].append(k)
        keep = False
    tail = [] if keep else [('eof',)]
    if k in ('reset', 'eof', 'stall'):
        at = min(int(len(wire) * f['at']), len(wire) - 1)
        if k == 'eof' and '/upperair/' in target:
            # headers cut short hide the length: a station list has no end mark of its own
            at = min(max(at, len(wire) - len(payload)), len(wire) - 1)
        if style == 'close' and k == 'eof' and len(wire) - len(payload) <= at:
            # end of a page that announces no length: make the loss real
            at = min(at, len(wire) - 30) if len(payload) > 40 else len(wire) - len(payload)
        wire = wire[:at]
        tail = [('reset',)] if k == 'reset' else [('fired', 'eof'), ('eof',)] if k == 'eof' else [('stall',)]
    elif keep and it.get('idle_close'):
        tail = [('eof',)]
    return segment(wire, it) + tail


def segment(wire, it):
    seg = it.get('seg')
    ev = []
    if it.get('delay'):
        ev.append(('gap', it['delay']))
    if not seg:
        if wire:
            ev.append(('data', wire))
        return ev
    rng = random.Random(seg)
    i, gaps = 0, it.get('gaps', 0)
    while i < len(wire):
        n = rng.choice([1, 3, 17, 200, 1400, 1400, 4000, 9000])
        ev.append(('data', wire[i:i + n]))
        i += n
        if gaps and rng.random() < .3 and i < len(wire):
            ev.append(('gap', rng.choice([.1, 1., 5., 20.])))
            gaps -= 1
    return ev


# ------------------------------------------------------------------------ archives
WY_SITES = {'LIRE': ('LIRE', 16245, 'Pratica Di Mare', 41.65, 12.43, 32.0), '16320': ('LIBR', 16320, 'Brindisi', 40.65, 17.95, 10.0),
            '72293': ('NKX', 72293, 'San Diego', 32.85, -117.11, 128.0), '89532': (None, 89532, 'Syowa', -69.0, 39.58, 21.0),
            '91765': ('NSTU', 91765, 'Pago Pago', -14.33, -170.71, 3.0), 'NoID': (None, 40179, 'Bet Dagan', 32.0, 34.81, 35.0),
            '03808': ('03808', 3808, 'Camborne', 50.22, -5.32, 88.0), '01004': ('ENAS', 1004, 'Ny-Alesund II', 78.91, 11.93, 15.5)}
REGIONS = ['naconf', 'samer', 'pac', 'nz', 'ant', 'np', 'europe', 'africa', 'seasia', 'mideast']
IGRA_SITES = ['SPM00060018', 'USM00072293', 'ITM00016245', 'GMM00010868', 'UGM00063705', 'BRM00082824']


def wy_levels(site, t, forged=False):
    rng = content('wy', site, t, forged)
    n = rng.randint(4, 14)
    lev, p = [], rng.uniform(980, 1020)
    z, tt = rng.uniform(-20, 150), rng.uniform(-10, 30)
    for _ in range(n):
        td = tt - rng.uniform(.1, 30)
        row = [round(p, 1), float(int(z)), round(tt, 1), round(td, 1), float(rng.randint(1, 100)), round(rng.uniform(.01, 18), 2)]
        u = rng.random()
        if u < .12:
            row[4] = row[5] = None
        elif u < .2:
            row[3] = row[4] = row[5] = None
        elif u < .25:
            row[2] = row[3] = row[4] = row[5] = None
        elif u < .3:
            row[1] = None
        lev.append(row)
        p *= rng.uniform(.75, .95)
        z += rng.uniform(200, 1800)
        tt -= rng.uniform(-2, 12)
    if all(r[2] is None or r[3] is None for r in lev):
        lev[0] = [1000.0, 100.0, 12.5, 3.1, 50.0, 5.11]
    return lev


def wy_available(site, t):
    return site in WY_SITES and content('wya', site, t).random() < .8


def wy_when(site, t):
    """The time of the observation, which is not always the full hour."""
    return datetime(*t) + timedelta(minutes=content('wyt', site, t).choice([0, 0, 0, 30, 7]))


def wy_page(site, t, forged=False):
    d = datetime(*t)
    if not wy_available(site, t):
        return ('<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<BODY BGCOLOR="white">\n'
                "Can't get %s Observations at %s.\n</BODY></HTML>\n" % (site, d.strftime('%HZ %d %b %Y')))
    ident, num, name, lat, lon, elev = WY_SITES[site]
    title = '%05d %s%s Observations at %s' % (num, ident + ' ' if ident else '', name, d.strftime('%HZ %d %b %Y'))
    o = ['<HTML>', '<TITLE>University of Wyoming - Radiosonde Data</TITLE>',
         '<LINK REL="StyleSheet" HREF="/resources/select.css" TYPE="text/css">', '<BODY BGCOLOR="white">',
         '<H2>%s</H2>' % title, '<PRE>', '-' * 77,
         '   PRES   HGHT   TEMP   DWPT   RELH   MIXR   DRCT   SKNT   THTA   THTE   THTV',
         '    hPa     m      C      C      %    g/kg    deg   knot     K      K      K ', '-' * 77]
    fm = ['%7.1f', '%7.0f', '%7.1f', '%7.1f', '%7.0f', '%7.2f']
    rng = content('wyx', site, t)
    for r in wy_levels(site, t, forged):
        s = ''.join(' ' * 7 if v is None else f % v for f, v in zip(fm, r))
        if rng.random() < .9:
            s += '%7.0f%7.0f%7.1f%7.1f%7.1f' % (rng.randint(0, 360), rng.randint(0, 99), rng.uniform(280, 500),
                                                rng.uniform(280, 500), rng.uniform(280, 500))
        o.append(s.rstrip())
    o.append('</PRE><H3>Station information and sounding indices</H3><PRE>')
    if ident:
        o.append('%43s: %s' % ('Station identifier', ident))
    o += ['%43s: %d' % ('Station number', num), '%43s: %s' % ('Observation time', wy_when(site, t).strftime('%y%m%d/%H%M')),
          '%43s: %.2f' % ('Station latitude', lat), '%43s: %.2f' % ('Station longitude', lon),
          '%43s: %.1f' % ('Station elevation', elev), '%43s: %.2f' % ('Showalter index', rng.uniform(-5, 20)),
          '%43s: %.2f' % ('Precipitable water [mm] for entire sounding', rng.uniform(1, 60)), '</PRE>',
          '<P>Description of the <A HREF="/upperair/columns.html">data columns</A>',
          'or <A HREF="/upperair/indices.html">sounding indices</A>.', '', '<P><FORM>',
          '<INPUT CLASS="button" TYPE="button" VALUE=" Close this window " onClick="window.close();">',
          '</FORM>', '</BODY>', '</HTML>', '']
    return '\n'.join(o)


def wy_truth(site, t):
    """('ok', columns) or ('none',)."""
    t = tuple(t)
    if not wy_available(site, t):
        return ('none',)
    ident, num, name, lat, lon, elev = WY_SITES[site]
    d = datetime(*t)
    lev = [r for r in wy_levels(site, t) if r[2] is not None and r[3] is not None]
    n = len(lev)
    nan = float('nan')
    c = {k: [nan if r[i] is None else r[i] for r in lev]
         for i, k in enumerate(['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr'])}
    c['station'] = [ident or ''] * n
    c['station_number'] = [num] * n
    c['time'] = [wy_when(site, t)] * n
    c['latitude'], c['longitude'], c['elevation'] = [lat] * n, [lon] * n, [elev] * n
    c['title'] = ['%05d %s%s Observations at %s' % (num, ident + ' ' if ident else '', name, d.strftime('%HZ %d %b %Y'))] * n
    return ('ok', c)


def stations(region):
    rng = content('st', region)
    names = ['Brindisi', 'Pratica Di Mare', 'De Bilt', 'S\u00e3o Paulo', 'Vi\u00f1a', 'Oslo', 'Nouakchott', 'El Aaiun', 'Syowa', 'Lihue, HI',
             'Guam Intl Arpt', 'Kashi', 'De Aar  (Upper)', 'St. Helena Is.']
    out = []
    for _ in range(rng.randint(2, 12)):
        out.append(('%05d' % rng.randint(1000, 99999), rng.choice(names)))
    if rng.random() < .4:
        out.append((out[0][0], out[0][1]))
    return out


def st_page(region):
    o = ['<html><head><title>Atmospheric Soundings - %s</title></head><body>' % region,
         '<img src="/upperair/%s.gif" usemap="#%s"><map name="%s">' % ((region,) * 3)]
    for i, (c, n) in enumerate(stations(region)):
        o.append('<area shape="circle" coords="%d,%d,5" title="%s  %s" href="javascript:g(\'%s\')">' % (10 * i, 7 * i, c, n, c))
        if i % 4 == 1:
            o.append('<area shape="rect" coords="0,0,9,9" href="#">')
    o += ['</map></body></html>', '']
    return '\n'.join(o)


def st_truth(region):
    if region not in REGIONS:
        return ('missing',)
    d = {}
    for c, n in stations(region):
        d[c] = n
    return ('ok', {'station_id': list(d), 'station_name': list(d.values())})


# ---- IGRA
def igra_soundings(site, folder):
    """Chronological soundings of one archive file."""
    rng = content('igra', site, folder)
    out = []
    months = [(2021, 1), (2021, 3), (2021, 6)] if 'y2d' in folder else [(2019, 12), (2020, 1), (2020, 2), (2020, 6)]
    days = set()
    for y, m in rng.sample(months, rng.randint(1, 3)):
        for d in rng.sample(range(1, 30), rng.randint(2, 3)):
            if m != 2 or y == 2020 or d < 29:
                days.add((y, m, d))
    if rng.random() < .3:
        days.add(max(days)[:2] + (1,))
    for day in sorted(days):
        hs = sorted(rng.sample([0, 6, 12, 18], rng.randint(1, 3)))
        if rng.random() < .25:              # hour not known; possibly besides one at midnight
            hs.insert(0, 99)
        for h in hs:
            out.append({'d': day + (h,), 'rel': rng.choice([9999, 9999, h % 24 * 100 + 30 if h != 99 else 9999,
                                                            2330, 515, 30, 1112]),
                        'n': rng.randint(2, 7) if rng.random() < .93 else rng.choice([12, 103]), 'seed': rng.randrange(1 << 30)})
    if rng.random() < .12:
        rng.choice(out)['n'] = 1004
    if rng.random() < .4:                  # years nobody asks for
        y = out[-1]['d'][0]
        for k in range(rng.randint(1, 6)):
            out.append({'d': (y + 1 + k // 2, 2 + k % 2 * 6, 11, 12), 'rel': 9999, 'n': rng.randint(30, 160), 'seed': rng.randrange(1 << 30)})
    return out


IG_LATLON = {'SPM00060018': (283183, -163822), 'USM00072293': (328333, -1171167), 'ITM00016245': (416500, 124300),
             'GMM00010868': (482442, 115525), 'UGM00063705': (500, 324500), 'BRM00082824': (-87678, -639100)}
B_NAMES = ['lvltyp1', 'lvltyp2', 'etime', 'pressure', 'pflag', 'height', 'zflag', 'temperature', 'tflag',
           'relative_humidity', 'dewpoint_depression', 'direction', 'speed']
D_NAMES = ['pressure', 'reported_height', 'calculated_height', 'temperature', 'temperature_gradient',
           'potential_temperature', 'potential_temperature_gradient', 'virtual_temperature',
           'virtual_potential_temperature', 'vapor_pressure', 'saturation_vapor_pressure',
           'reported_relative_humidity', 'calculated_relative_humidity', 'relative_humidity_gradient',
           'u_wind', 'u_wind_gradient', 'v_wind', 'v_wind_gradient', 'refractive_index']
D_POW = [2, 0, 0, 1, 1, 1, 1, 1, 1, 3, 3, 1, 1, 1, 1, 1, 1, 1, 0]
DH_NAMES = ['precipitable_water', 'inv_pressure', 'inv_height', 'inv_strength', 'mixed_layer_pressure',
            'mixed_layer_height', 'freezing_point_pressure', 'freezing_point_height', 'lcl_pressure', 'lcl_height',
            'lfc_pressure', 'lfc_height', 'lnb_pressure', 'lnb_height', 'lifted_index', 'showalter_index', 'k_index',
            'total_totals_index', 'cape', 'convective_inhibition']
DH_POW = [2, 2, 0, 1, 2, 0, 2, 0, 2, 0, 2, 0, 2, 0, 0, 0, 0, 0, 0, 0]


def igra_levels(s, derived, forged=False):
    rng = random.Random('lev/%s/%s/%s' % (s['seed'], bool(derived), bool(forged)))
    gap = random.Random('gap/%s/%s' % (s['seed'], bool(forged)))
    rows = []
    p, t, z = rng.randint(97000, 102000), rng.randint(-100, 300), rng.randint(-10, 900)
    for i in range(s['n']):
        if derived:
            r = [p, z if rng.random() < .8 else -99999, z + rng.randint(-9, 9), t + 2731, rng.randint(-150, 50), t + 2800,
                 rng.randint(-99, 99), t + 2740, t + 2810, rng.randint(1, 30000), rng.randint(1, 40000),
                 rng.randint(1, 1000) if rng.random() < .8 else -99999, rng.randint(1, 1000), rng.randint(-999, 999),
                 rng.randint(-500, 500) if rng.random() < .8 else -99999, rng.randint(-99, 99),
                 rng.randint(-500, 500) if rng.random() < .8 else -99999, rng.randint(-99, 99), rng.randint(1, 400)]
            if rng.random() < .08:
                r[3] = r[11] = r[14] = r[16] = -99999
            for c in (2, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 17, 18):
                if gap.random() < .07:
                    r[c] = -99999
        else:
            def miss(v, q=.15):
                return v if rng.random() > q else rng.choice([-9999, -9999, -8888])
            r = [rng.choice([1, 2, 3]), rng.choice([0, 1, 2]), rng.choice([-9999, -8888, i % 900 * 100 + 13, i % 900 * 100 + 7]),
                 p if rng.random() > .08 else -9999, rng.choice(' AB'), miss(z), rng.choice(' AB'), miss(t), rng.choice(' AB'),
                 miss(rng.randint(1, 1000), .4), miss(rng.randint(0, 300)), miss(rng.randint(0, 360)), miss(rng.randint(0, 600))]
            if rng.random() < .1:
                r[7] = r[10] = r[11] = r[12] = -9999
        rows.append(r)
        k = 1 if s['n'] < 20 else 20
        p = int(p * rng.uniform(.7, .93) ** (1 / k))
        t -= rng.randint(-20, 120) // k
        z += rng.randint(300, 2500) // k
    if derived:
        if all(r[3] == -99999 and r[11] == -99999 and r[14] == -99999 and r[16] == -99999 for r in rows):
            rows[0][3] = 2800
    elif all(r[7] < -8000 and r[10] < -8000 and r[11] < -8000 and r[12] < -8000 for r in rows):
        rows[0][7] = 120
    return rows


def igra_dhead(s):
    rng = random.Random('dh/%s' % s['seed'])
    out = []
    for i, p in enumerate(DH_POW):
        if rng.random() < .15:
            out.append(-99999)
        elif p == 2 and i:
            out.append(rng.randint(10000, 101000))
        else:
            out.append(rng.randint(-50 if i > 13 else 1, 9000))
    return out


def igra_file(site, folder, forged=False):
    derived = 'derived' in folder
    lat, lon = IG_LATLON[site]
    o = []
    for s in igra_soundings(site, folder):
        y, m, d, h = s['d']
        head = '#%-11s %04d %02d %02d %02d %4s %4d' % (site, y, m, d, h, '%04d' % s['rel'] if s['rel'] != 9999 else '9999', s['n'])
        if derived:
            head += ' ' + ''.join('%6d' % v for v in igra_dhead(s))
            o.append(head)
            for r in igra_levels(s, True, forged):
                o.append(' '.join('%7d' % v for v in r))
        else:
            head += ' %-8s %-8s %7d %8d' % ('ncdc6301', 'ncdc6309', lat, lon)
            o.append(head)
            for r in igra_levels(s, False, forged):
                o.append('%d%d %5d %6d%s%5d%s%5d%s%5d %5d %5d %5d ' % tuple(r))
    return '\n'.join(o) + '\n'


def igra_zip(site, folder, suffix, forged=False):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        i = zipfile.ZipInfo(site + suffix, date_time=(2021, 7, 1, 0, 0, 0))
        i.compress_type = zipfile.ZIP_STORED if content('zip', site, folder).random() < .2 else zipfile.ZIP_DEFLATED
        z.writestr(i, igra_file(site, folder, forged))
    return b.getvalue()


def _date(d):
    return datetime(*d) if d[3] < 24 else datetime(*d[:3])


def igra_truth(t, site, beg2021, derived):
    folder = 'derived-por/' if derived else 'data-y2d/' if beg2021 else 'data-por/'
    if site not in IGRA_SITES:
        return ('missing',)
    t0, t1 = (t, t) if not isinstance(t[0], (list, tuple)) else t
    t0, t1 = datetime(*t0), datetime(*t1)
    ss = [s for s in igra_soundings(site, folder) if t0 <= _date(s['d']) <= t1]
    if not ss:
        return ('none',)
    nan = float('nan')
    body, head = {}, {}
    names, dates = (D_NAMES, []) if derived else (B_NAMES, [])
    rows = []
    for s in ss:
        for r in igra_levels(s, derived):
            if derived:
                v = [nan if x == -99999 else x / 10 ** p if p else float(x) for x, p in zip(r, D_POW)]
                if all(np.isnan(v[names.index(k)]) for k in ('temperature', 'reported_relative_humidity', 'u_wind', 'v_wind')):
                    continue
                rows.append(v)
            else:
                fl = {' ': 0, 'A': 1, 'B': 2}
                M = (-9999, -8888)
                et = nan if r[2] < 0 else r[2] // 100 * 60 + r[2] % 100
                v = [r[0], r[1], et, nan if r[3] in M else r[3] / 100, fl[r[4]], nan if r[5] in M else r[5], fl[r[6]],
                     nan if r[7] in M else r[7] / 10, fl[r[8]], nan if r[9] in M else r[9] / 10,
                     nan if r[10] in M else r[10] / 10, nan if r[11] in M else r[11], nan if r[12] in M else r[12] / 10]
                a = np.deg2rad(v[11])
                u, w = np.round(-v[12] * np.sin(a), 1), np.round(-v[12] * np.cos(a), 1)
                if all(np.isnan(x) for x in (v[7], v[11], v[12], v[10], u, w)):
                    continue
                rows.append(v + [u, w, v[7] - v[10]])
            dates.append(_date(s['d']))
    cols = names if derived else names + ['u_wind', 'v_wind', 'dewpoint']
    for i, k in enumerate(cols):
        body[k] = [r[i] for r in rows]
    if not derived:
        del body['dewpoint_depression']
    body['date'] = dates
    head['site_id'] = [site] * len(ss)
    for i, k in enumerate(['year', 'month', 'day', 'hour']):
        head[k] = [s['d'][i] for s in ss]
    head['release_time'] = [nan if s['rel'] == 9999 else s['rel'] // 100 * 3600 + s['rel'] % 100 * 60 for s in ss]
    head['number_levels'] = [s['n'] for s in ss]
    if derived:
        dh = [igra_dhead(s) for s in ss]
        for i, k in enumerate(DH_NAMES):
            head[k] = [nan if r[i] == -99999 else r[i] / 10 ** DH_POW[i] if DH_POW[i] else r[i] for r in dh]
    else:
        head['pressure_source_code'] = ['ncdc6301'] * len(ss)
        head['non_pressure_source_code'] = ['ncdc6309'] * len(ss)
        head['latitude'] = [IG_LATLON[site][0] / 1e4] * len(ss)
        head['longitude'] = [IG_LATLON[site][1] / 1e4] * len(ss)
    head['date'] = [_date(s['d']) for s in ss]
    return ('ok', body, head)


def archive(url, forged=False):
    """(status, content type, body) of a resource, decided by the URL alone."""
    u = urlsplit(url)
    host = u.hostname.replace('mirror.', '')
    nf = (404, 'text/html', b'<html><body><h1>404 Not Found</h1></body></html>')
    if host == 'weather.uwyo.edu' and u.path.rstrip('/') == '/cgi-bin/sounding':
        q = parse_qs(u.query)
        try:
            fr, to = q['FROM'][0], q['TO'][0]
            if q['TYPE'][0] != 'TEXT:LIST' or fr != to or 'region' not in q:
                return nf
            t = (int(q['YEAR'][0]), int(q['MONTH'][0]), int(fr[:2]), int(fr[2:]))
            return 200, 'text/html', wy_page(q['STNM'][0], t, forged).encode()
        except (KeyError, ValueError):
            return nf
    if host == 'weather.uwyo.edu' and u.path.startswith('/upperair/'):
        r = unquote(u.path[len('/upperair/'):])
        if r.endswith('.html') and r[:-5] in REGIONS:
            return 200, 'text/html; charset=utf-8', st_page(r[:-5]).encode('utf-8')
        return nf
    base = '/data/integrated-global-radiosonde-archive/access/'
    if host == 'www.ncei.noaa.gov' and u.path.startswith(base) and u.scheme == 'https':
        p = u.path[len(base):]
        for folder, suf in (('data-por/', '-data.txt'), ('data-y2d/', '-data-beg2021.txt'), ('derived-por/', '-drvd.txt')):
            if p.startswith(folder) and p.endswith(suf + '.zip'):
                site = p[len(folder):-len(suf) - 4]
                if site in IGRA_SITES:
                    return 200, 'application/zip', igra_zip(site, folder, suf, forged)
        return nf
    return nf


# ------------------------------------------------------------------------ install
def install():
    """Put the simulated network and clock in force (in the process of one run)."""
    import os
    import urllib3.connection
    import urllib3.util.connection
    import urllib3.util.wait
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    urllib3.util.connection.create_connection = create_connection
    socket.create_connection = _std_create_connection
    urllib3.connection._ssl_wrap_socket_and_match_hostname = tls_wrap

    def wait_for_read(sock, timeout=None):
        return sock.readable_now() if isinstance(sock, SimSocket) else False
    urllib3.connection.wait_for_read = wait_for_read
    urllib3.util.wait.wait_for_read = wait_for_read
    time.sleep = lambda s: NET.advance(s)
    time.monotonic = NET.now
    time.time = NET.now
    time.perf_counter = NET.now
