"""Network seam: a simulated HTTP/1.1 network below urllib and http.client.

socket.create_connection() returns a SimSocket; the real http.client and urllib
code runs on top of it. Servers are Python callables that map a request to a
response; what the network does to a connection is decided per connection.
"""

import errno
import io
import socket

from . import fs
from .core import SimHang

REASONS = {200: 'OK', 301: 'Moved Permanently', 302: 'Found', 307: 'Temporary Redirect',
           401: 'Unauthorized', 403: 'Forbidden', 404: 'Not Found', 410: 'Gone',
           429: 'Too Many Requests', 500: 'Internal Server Error', 502: 'Bad Gateway',
           503: 'Service Unavailable', 504: 'Gateway Timeout'}

# Kinds of network faults. Those of BENIGN must have no effect on the result.
TIMEOUT_KINDS = ('ctimeout', 'stall_head', 'stall_body')
FAIL_KINDS = ('refuse', 'dns', 'unreach', 'reset_send', 'reset_head', 'close_head', 'garbage',
              's403', 's404', 's410', 's429', 's500', 's502', 's503', 's504',
              'trunc', 'reset_body', 'badchunk', 'redirect_loop')
BENIGN = ('slow', 'dribble', 'redirect')

_real_create = socket.create_connection
_real_connect = socket.socket.connect


class Request(object):
    def __init__(self, method, target, headers, host):
        self.method = method
        self.target = target
        self.headers = headers      # list of (name, value)
        self.host = host

    def header(self, name):
        for (k, v) in self.headers:
            if k.lower() == name.lower():
                return v
        return None


class Response(object):
    def __init__(self, status=200, body=b'', headers=(), tag=None):
        self.status = status
        self.body = body
        self.headers = list(headers)
        self.tag = tag              # what the harness wants to remember


class Net(object):
    """All simulated servers, and the record of all connections."""

    def __init__(self, sim):
        self.sim = sim
        self.handler = None         # handler(Request) -> Response
        self.attempts = []          # one dict per connection attempt
        self.follow = False         # the next connection follows a redirect
        self.kind_for = None        # optional: function(host) -> fault spec or None
        self.uri_fault = None       # optional: function(uri) -> fault spec or None

    def connect(self, address, timeout):
        sim = self.sim
        host, port = address[0], address[1]
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = socket.getdefaulttimeout()
        a = {'t': sim.now, 'host': host, 'port': port, 'op': sim.op, 'fault': None, 'request': None,
             'status': None, 'complete': False, 'timeout': timeout, 'delivered': 0, 'follow': self.follow}
        self.follow = False
        sim.point('connect', '%s:%s' % (host, port))
        self.attempts.append(a)
        f = self.decide(host)
        a['fault'] = f
        kind = f[0] if f else None
        if f and f[0] not in BENIGN:
            sim.fault('net:' + kind, host)
        elif f:
            sim.event('net:' + kind, host)
            sim.faults['net:' + kind] += 1
        if kind == 'refuse':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if kind == 'unreach':
            raise OSError(errno.EHOSTUNREACH, 'No route to host')
        if kind == 'dns':
            raise socket.gaierror(-2, 'Name or service not known')
        if kind == 'ctimeout':
            if timeout is None:
                sim.advance(130.0)
                raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
            sim.advance(timeout)
            raise TimeoutError('timed out')
        sim.advance(0.001)
        return SimSocket(self, a, timeout)

    def decide(self, host):
        sim = self.sim
        cfg = sim.proc.net
        if self.kind_for is not None:
            return self.kind_for(host)
        if not cfg:
            return None
        kinds = cfg.get('kinds') or ()
        p = cfg.get('p', 0.0)
        left = cfg.get('left')
        if left is not None and left <= 0 and not sim.replay:
            sim.counts[sim.op + '|net'] += 1
            return None

        def pick(rng):
            if not kinds or rng.random() >= p:
                return None
            return [rng.choice(list(kinds)), round(rng.random(), 3)]
        f = sim.choose('net', None, pick)
        if f is not None and left is not None and f[0] not in BENIGN:
            cfg['left'] = left - 1
        return f

    def respond(self, sock, req):
        """Return the list of segments for the response to req."""
        sim = self.sim
        a = sock.attempt
        a['request'] = req
        a['t_request'] = sim.now
        f = a['fault']
        if f is None and self.uri_fault is not None and not req.target.endswith('__redirected'):
            f = a['fault'] = self.uri_fault('http://%s%s' % (req.host, req.target))
            if f is not None:
                sim.fault('net:' + f[0], req.target)
        kind = f[0] if f else None
        frac = f[1] if f else 0.0
        sim.event('request', '%s %s%s' % (req.method, req.host, req.target))
        if kind == 'reset_head':
            return [('reset',)]
        if kind == 'close_head':
            return [('eof',)]
        if kind == 'stall_head':
            return [('stall',)]
        if kind == 'garbage':
            junk = [b'\x00\xff\x16\x03\x01garbage\r\n\r\n', b'HTTP/1.1 abc Oops\r\n\r\n',
                    b'HTTP/1.1 99999 x\r\n\r\n', b'220 smtp ready\r\n' * 3][int(frac * 4) % 4]
            return [('data', junk), ('eof',)]
        if kind == 'redirect_loop':
            resp = Response(302, b'', [('Location', 'http://%s%s' % (req.host, req.target))])
        elif kind is not None and kind[0] == 's' and kind[1:].isdigit():
            resp = Response(int(kind[1:]), b'<html><body>Error</body></html>')
        elif kind == 'redirect' and not req.target.endswith('__redirected'):
            resp = Response([301, 302, 307][int(frac * 3) % 3], b'moved',
                            [('Location', 'http://%s%s__redirected' % (req.host, req.target))])
        else:
            target = req.target
            if target.endswith('__redirected'):
                req2 = Request(req.method, target[:-len('__redirected')], req.headers, req.host)
                resp = self.handler(req2)
            else:
                resp = self.handler(req)
        a['status'] = resp.status
        a['tag'] = resp.tag
        body = resp.body
        framing = sim.choose('framing', 'cl', lambda r: r.choice(['cl', 'cl', 'chunked', 'close']))
        if kind == 'badchunk':
            framing = 'chunked'
        elif kind == 'trunc' and framing == 'close':
            framing = 'cl'          # a close-delimited body cut short cannot be detected
        head = 'HTTP/1.1 %d %s\r\n' % (resp.status, REASONS.get(resp.status, 'X'))
        hs = list(resp.headers)
        if framing == 'cl' or req.method == 'HEAD':
            hs.append(('Content-Length', str(len(body))))
        elif framing == 'chunked':
            hs.append(('Transfer-Encoding', 'chunked'))
        hs.append(('Connection', 'close'))
        head += ''.join('%s: %s\r\n' % h for h in hs) + '\r\n'
        head = head.encode('latin-1')
        if req.method == 'HEAD':
            a['complete'] = True
            return [('data', head), ('eof',)]
        seg = sim.choose('segment', 0, lambda r: r.choice([0, 0, 0, 1000, 137, 4096]))
        if kind == 'dribble':
            seg = max(1, len(body) // 7)
        pieces = [body[i:i + seg] for i in range(0, len(body), seg)] if seg else ([body] if body else [])
        out = [('data', head)]
        cut = None
        if kind in ('trunc', 'reset_body', 'stall_body', 'badchunk'):
            cut = int(frac * len(body))
            if cut >= len(body):
                cut = max(0, len(body) - 1)
        sent = 0
        for p in pieces:
            if kind in ('slow', 'dribble'):
                out.append(('delay', 0.05 + frac * 0.1))
            last = False
            if cut is not None and sent + len(p) > cut:
                p = p[:cut - sent]
                last = True
            if p:
                out.append(('data', p if framing != 'chunked' else b'%x\r\n%s\r\n' % (len(p), p)))
            sent += len(p)
            if last:
                break
        if cut is not None or kind == 'badchunk':
            if framing == 'cl' and not body:
                out.append(('complete',))       # nothing is left to be read
            if kind == 'trunc':
                out.append(('eof',))
            elif kind == 'reset_body':
                out.append(('reset',))
            elif kind == 'stall_body':
                out.append(('stall',))
            else:
                out += [('data', b'zz\r\nnonsense\r\n'), ('eof',)]
            return out
        if framing == 'chunked':
            out.append(('data', b'0\r\n\r\n'))
        out.append(('complete',))
        out.append(('eof',))
        return out


class SimSocket(object):
    """What http.client needs of a socket."""

    def __init__(self, net, attempt, timeout):
        self.net = net
        self.attempt = attempt
        self.timeout = timeout
        self.buf = b''
        self.segments = None
        self.closed = False
        self.refs = 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *args):
        pass

    def getsockopt(self, *args):
        return 0

    def fileno(self):
        return -1

    def getpeername(self):
        return (self.attempt['host'], self.attempt['port'])

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def sendall(self, data, flags=0):
        sim = self.net.sim
        sim.point('send', '%s %d' % (self.attempt['host'], len(data)))
        f = self.attempt['fault']
        if f and f[0] == 'reset_send':
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        self.buf += bytes(data)
        if self.segments is None and b'\r\n\r\n' in self.buf:
            head = self.buf.split(b'\r\n\r\n', 1)[0].decode('latin-1')
            lines = head.split('\r\n')
            method, target, _ = lines[0].split(' ', 2)
            headers = []
            for line in lines[1:]:
                k, _, v = line.partition(':')
                headers.append((k.strip(), v.strip()))
            host = self.attempt['host']
            if self.attempt['port'] != 80:
                host += ':%d' % self.attempt['port']
            self.segments = self.net.respond(self, Request(method, target, headers, host))

    send = sendall

    def makefile(self, mode='r', buffering=None, **kw):
        return io.BufferedReader(SimSocketRaw(self))

    def recv_into(self, b):
        sim = self.net.sim
        if sim.proc is None:
            return 0
        while True:
            if not self.segments:
                return 0
            seg = self.segments[0]
            if seg[0] == 'data':
                data = seg[1]
                sim.point('recv', self.attempt['host'])
                n = min(len(b), len(data))
                b[:n] = data[:n]
                self.attempt['delivered'] += n
                if n == len(data):
                    self.segments.pop(0)
                    self.note_complete()
                else:
                    self.segments[0] = ('data', data[n:])
                return n
            if seg[0] == 'complete':
                self.note_complete()
                continue
            if seg[0] == 'delay':
                self.segments.pop(0)
                sim.point('wait', '%.3f' % seg[1])
                if self.timeout is not None and seg[1] > self.timeout:
                    sim.advance(self.timeout)
                    raise TimeoutError('timed out')
                sim.advance(seg[1])
                continue
            if seg[0] == 'stall':
                sim.point('stall', self.attempt['host'])
                if self.timeout is None:
                    sim.event('HANG', self.attempt['host'])
                    sim.proc.dead = True
                    raise SimHang('blocked for ever reading from %s' % self.attempt['host'])
                sim.advance(self.timeout)
                raise TimeoutError('timed out')
            if seg[0] == 'reset':
                sim.point('reset', self.attempt['host'])
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if seg[0] == 'eof':
                sim.point('fin', self.attempt['host'])
                self.segments.pop(0)
                return 0

    def note_complete(self):
        while self.segments and self.segments[0][0] == 'complete':
            self.segments.pop(0)
            self.attempt['complete'] = True


class SimSocketRaw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)


NET = None


def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, **kw):
    if not fs.active():
        raise OSError('no network outside the simulation')
    return NET.connect(address, timeout)


def _no_connect(self, *args):
    raise OSError('no real network in the simulation')


def _note_redirects():
    """Tell redirects that urllib follows from requests that the client makes."""
    import urllib.request
    cls = urllib.request.OpenerDirector
    real = cls.open

    def open(self, fullurl, *args, **kw):
        if NET is not None:
            NET.follow = hasattr(fullurl, 'redirect_dict')
        return real(self, fullurl, *args, **kw)
    cls.open = open


def install():
    _note_redirects()
    socket.create_connection = create_connection
    socket.socket.connect = _no_connect
