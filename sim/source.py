"""Model of a ResourceSync source: resources, changes, documents, and a server.

The writer and the reader of documents in this file are independent of the code
under test.
"""

import hashlib
import time
import traceback
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from .core import Violation
from .net import Response

SM = 'http://www.sitemaps.org/schemas/sitemap/0.9'
RS = 'http://www.openarchives.org/rs/terms/'


def content(cid, size):
    """Deterministic bytes for content number cid."""
    if size <= 0:
        return b''
    seed = hashlib.sha256(b'content %d' % cid).digest()
    if size <= 32:
        return seed[:size]
    out = bytearray()
    n = 0
    while len(out) < size:
        out += hashlib.sha256(seed + n.to_bytes(4, 'big')).digest() * 64
        n += 1
    return bytes(out[:size])


def iso(ts, style=0):
    """W3C datetime for a timestamp. Styles differ in form, not in the instant."""
    us = int(round(ts * 1000000))
    sec, frac = divmod(us, 1000000)
    off = {0: 0, 1: 0, 2: 3600, 3: -5400, 4: 0}[style % 5]
    g = time.gmtime(sec + off)
    s = '%04d-%02d-%02dT%02d:%02d:%02d' % g[:6]
    if frac or style % 5 == 4:
        s += ('.%06d' % frac).rstrip('0') if frac else '.0'
    if off == 0:
        return s + ('Z' if style % 5 != 1 else '+00:00')
    sign = '+' if off > 0 else '-'
    return s + '%s%02d:%02d' % (sign, abs(off) // 3600, abs(off) % 3600 // 60)


def parse_iso(s):
    """Independent reader of the times written (Z or offset, optional fraction)."""
    import calendar
    import re
    m = re.match(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d)(?::(\d\d)(\.\d+)?)?(Z|[+-]\d\d:\d\d)$', s)
    if not m:
        raise ValueError('not a W3C datetime: %r' % s)
    y, mo, d, h, mi = (int(m.group(i)) for i in range(1, 6))
    sec = int(m.group(6) or 0)
    t = calendar.timegm((y, mo, d, h, mi, sec))
    us = int(round(float('0' + (m.group(7) or '.0')) * 1000000))
    z = m.group(8)
    if z != 'Z':
        off = int(z[1:3]) * 3600 + int(z[4:6]) * 60
        t -= off if z[0] == '+' else -off
    return t + us / 1e6


def digest(data, kind):
    return getattr(hashlib, {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}[kind])(data).hexdigest()


def hash_att(data, kinds):
    return ' '.join('%s:%s' % (k, digest(data, k)) for k in kinds)


def doc(capability, entries, ln=(), md=None, index=False, pretty=False):
    """A ResourceSync document. entries: dicts with uri, lastmod and rs:md attributes."""
    root, item = ('sitemapindex', 'sitemap') if index else ('urlset', 'url')
    nl = '\n' if pretty else ''
    out = ["<?xml version='1.0' encoding='UTF-8'?>\n<%s xmlns=\"%s\" xmlns:rs=\"%s\">%s" % (root, SM, RS, nl)]
    for link in ln:
        out.append('<rs:ln %s/>%s' % (' '.join('%s=%s' % (k, quoteattr(str(v))) for k, v in link.items()), nl))
    atts = dict(md or {})
    if capability is not None:
        atts['capability'] = capability
    if atts:
        out.append('<rs:md %s/>%s' % (' '.join('%s=%s' % (k, quoteattr(str(v))) for k, v in atts.items()), nl))
    for e in entries:
        s = '<%s><loc>%s</loc>' % (item, escape(e['uri']))
        if e.get('lastmod') is not None:
            s += '<lastmod>%s</lastmod>' % e['lastmod']
        a = [(k, e[k]) for k in ('capability', 'change', 'datetime', 'hash', 'length', 'path', 'type')
             if e.get(k) is not None]
        if a:
            s += '<rs:md %s/>' % ' '.join('%s=%s' % (k, quoteattr(str(v))) for k, v in a)
        for link in e.get('ln', ()):
            s += '<rs:ln %s/>' % ' '.join('%s=%s' % (k, quoteattr(str(v))) for k, v in link.items())
        out.append(s + '</%s>%s' % (item, nl))
    out.append('</%s>\n' % root)
    return ''.join(out).encode('utf-8')


class ReadError(Exception):
    pass


def read_doc(data):
    """Independent reader: bytes -> dict(index, md, ln, entries)."""
    try:
        data.decode('utf-8')        # the Sitemap protocol demands it
        root = ET.fromstring(data)
    except UnicodeDecodeError as e:
        raise ReadError('not in UTF-8 (%s)' % e)
    except (ET.ParseError, LookupError) as e:
        raise ReadError('not well-formed (%s)' % e)
    if root.tag == '{%s}urlset' % SM:
        index, item = False, '{%s}url' % SM
    elif root.tag == '{%s}sitemapindex' % SM:
        index, item = True, '{%s}sitemap' % SM
    else:
        raise ReadError('root element %s' % root.tag)
    out = {'index': index, 'md': {}, 'ln': [], 'entries': []}
    nmd = 0
    for e in root:
        if e.tag == '{%s}md' % RS:
            if out['entries'] or nmd:
                raise ReadError('misplaced rs:md')
            nmd += 1
            out['md'] = dict(e.attrib)
        elif e.tag == '{%s}ln' % RS:
            if out['entries']:
                raise ReadError('misplaced rs:ln')
            out['ln'].append(dict(e.attrib))
        elif e.tag == item:
            d = {'ln': []}
            for c in e:
                if c.tag == '{%s}loc' % SM:
                    if 'uri' in d:
                        raise ReadError('two loc')
                    d['uri'] = c.text
                elif c.tag == '{%s}lastmod' % SM:
                    if 'lastmod' in d:
                        raise ReadError('two lastmod')
                    d['lastmod'] = c.text
                elif c.tag == '{%s}md' % RS:
                    if 'md' in d:
                        raise ReadError('two md')
                    d['md'] = dict(c.attrib)
                elif c.tag == '{%s}ln' % RS:
                    d['ln'].append(dict(c.attrib))
                else:
                    raise ReadError('element %s' % c.tag)
            if 'uri' not in d:
                raise ReadError('entry without loc')
            d.setdefault('md', {})
            out['entries'].append(d)
        else:
            raise ReadError('element %s' % e.tag)
    return out


class Server(object):
    """Serves documents and resources by absolute URI."""

    def __init__(self, world):
        self.world = world
        self.docs = {}              # uri -> bytes
        self.files = {}             # uri -> (bytes, mtime)
        self.status = {}            # uri -> status to answer with
        self.ctype = {}
        self.requests = []          # (t, method, uri, Request, op)
        self.hook = None
        world.net.handler = self.handle

    def handle(self, req):
        try:
            return self._handle(req)
        except Violation as e:
            self.world.sim.violations.append(str(e))
            raise
        except Exception:
            self.world.harness_errors.append(traceback.format_exc())
            raise

    def _handle(self, req):
        uri = 'http://%s%s' % (req.host, req.target)
        self.requests.append((self.world.sim.now, req.method, uri, req, self.world.sim.op))
        if self.hook is not None:
            r = self.hook(uri, req)
            if r is not None:
                return r
        if uri in self.status:
            return Response(self.status[uri], b'<html>status</html>', tag=('status', uri))
        if uri in self.docs:
            return Response(200, self.docs[uri], [('Content-Type', 'application/xml')], tag=('doc', uri))
        if uri in self.files:
            data, mtime = self.files[uri]
            hs = [('Content-Type', self.ctype.get(uri, 'application/octet-stream'))]
            if mtime is not None:
                hs.append(('Last-Modified', time.strftime('%a, %d %b %Y %H:%M:%S GMT', time.gmtime(int(mtime)))))
            return Response(200, data, hs, tag=('file', uri, data))
        return Response(404, b'<html>not found</html>', tag=('none', uri))
