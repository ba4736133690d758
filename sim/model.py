"""Model of a source site and of the client runs against it; shared by the checks."""

import os

from . import source
from .core import Violation
from .fs import tree, write_file, _real
from .source import Server, content, doc, hash_att, iso

# Names of resources below a mapped base. They have characters that are special in
# URIs, in XML, in regular expressions or in printf formats, and names of which one
# is a prefix of another or that sort differently with and without directories.
NAMES = ['a', 'a.b', 'a-b', 'ab', 'b', 'B', 'res1.txt', 'res2.txt', 'res10.txt', 'd/a', 'd/b', 'd.x',
         'd-x', 'd0', 'e/f/g', 'e/f/g2', 'e/f.h', 'x&y', "q'uote", 'p%20c', 'p%41', 'eq=1', 'q?v=1',
         'q?v=2&w=3', 'semi;c', 'plus+x', 'tilde~', 'at@x', 'star*x', 'par(x)', 'br[1]', 'dol$1', 'ex!',
         'com,ma', 'co:lon', 'resourcelist', 'x.xml', 'd/resourcelist.xml.txt', '.hidden', 'd/.h/x',
         'long/' + 'n' * 60, 'UPPER/Case', 'upper/case', 'z_', 'z__', '%', 'e/%s', 'd/1', 'd/10', 'd/2']
# files and directories in NAMES never collide: a name is not a directory of another


def pick_names(rng, n):
    return rng.sample(NAMES, min(n, len(NAMES)))


SIZES = [0, 0, 1, 2, 7, 100, 1000, 8191, 8192, 8193, 20000]
BIG = [65535, 65536, 65537, 140000]


def pick_size(rng, big=0.06):
    return rng.choice(BIG) if rng.random() < big else rng.choice(SIZES)


BASES = ['http://example.org', 'http://example.org/base', 'http://example.org/a/b', 'http://www.example.org/r.s',
         'http://example.org:8080/x', 'http://example.org/a+b', 'http://ex-ample.org/~u/data']


ROUTES = ['rl', 'wk_base', 'wk_host', 'sm_base', 'sm_host', 'explicit', 'caplist']


def doc_locations(conf):
    """Where the documents of a site are, by the route they are found."""
    base = conf['maps'][0][0]
    if '://' not in base:
        return {'rl': base + '/resourcelist.xml', 'wk_base': base + '/.well-known/resourcesync',
                'sm_base': base + '/sitemap.xml', 'host': '', 'base': base}
    scheme, rest = base.split('://', 1)
    host = scheme + '://' + rest.split('/', 1)[0]
    loc = {'rl': base + '/resourcelist.xml', 'wk_base': base + '/.well-known/resourcesync',
           'wk_host': host + '/.well-known/resourcesync', 'sm_base': base + '/sitemap.xml',
           'sm_host': host + '/sitemap.xml', 'host': host, 'base': base}
    return loc


class Site(object):
    """A source: resources by URI, published by an independent writer."""

    def __init__(self, world, conf):
        self.world = world
        self.conf = conf = dict(conf)
        conf['maps'] = [[s.replace('$R', world.root), d] for (s, d) in conf['maps']]
        self.local = bool(conf.get('local'))
        self.server = Server(world)
        self.res = {}               # uri -> (data, ts)
        self.published = {}         # uri -> (data, ts) as in the list
        self.changes = []           # [ts, uri, kind, data, lastmod]
        self.listed_hashes = ()
        self.explicit_uri = None
        self.listed_changes = []
        self.times = {}             # times of the versions of a resource
        self.nolen = False          # true if the published list leaves sizes out
        self.at = None              # time of the resource list, if not that of publication

    # -- resources

    def uri(self, m, name):
        return self.conf['maps'][m % len(self.conf['maps'])][0] + '/' + name

    def path(self, uri):
        """Path of the local copy, by the documented rule (first mapping that matches)."""
        for (src, dst) in self.conf['maps']:
            if uri.startswith(src + '/'):
                return self.world.p(dst) + uri[len(src):]
        return None

    def put(self, uri, cid, size, ts):
        data = content(cid, size)
        self.res[uri] = (data, ts)
        self.server.files[uri] = (data, ts)
        if self.local:
            write_file(uri, data, ts)

    def remove(self, uri):
        self.res.pop(uri, None)
        self.server.files.pop(uri, None)
        if self.local and os.path.exists(uri):
            _real['unlink'](uri)

    # -- documents

    def entry(self, uri, extra=None):
        data, ts = self.res[uri]
        c = self.conf
        e = {'uri': uri, 'lastmod': iso(ts, c.get('style', 0)), 'length': len(data)}
        if c.get('hashes'):
            e['hash'] = hash_att(data, c['hashes'])
        if c.get('nolen'):
            del e['length']
        if c.get('nolm'):
            del e['lastmod']
        if extra:
            e.update(extra)
        return e

    def list_uri(self):
        c = self.conf
        loc = doc_locations(c)
        r = c.get('route', 'rl')
        if r in ('rl', 'sm_base', 'sm_host'):
            return loc[r]
        if r == 'explicit' and self.explicit_uri:
            return self.explicit_uri
        if r == 'explicit':
            return loc['base'] + '/lists/my-list.xml'
        return loc['base'] + '/rs/rlist.xml'

    def publish(self, order=None):
        """Put resource list and what leads to it on the server."""
        c = self.conf
        docs = self.server.docs
        docs.clear()
        self.explicit_uri = None
        loc = doc_locations(c)
        uris = sorted(self.res)
        if order is not None:
            order.shuffle(uris)
        entries = [self.entry(u) for u in uris]
        lu = self.list_uri()
        parts = c.get('parts') or 0
        md = {'at': iso(self.at() if self.at else self.world.sim.now)}
        cap = 'resourcelist' if c.get('rs', True) else None
        if cap is None:
            md = {}
        pretty = c.get('pretty', False)
        self.part_uris = []
        if parts:
            n = 0
            index = []
            for i in range(0, max(1, len(entries)), parts):
                pu = lu[:-4] + '%05d.xml' % n if lu.endswith('.xml') else lu + '%05d.xml' % n
                docs[pu] = doc(cap, entries[i:i + parts], md=md, pretty=pretty,
                               ln=[{'rel': 'index', 'href': lu}] if cap else ())
                self.part_uris.append(pu)
                index.append({'uri': pu, 'lastmod': iso(self.world.sim.now)})
                n += 1
            docs[lu] = doc(cap, index, md=md, index=True, pretty=pretty)
        else:
            docs[lu] = doc(cap, entries, md=md, pretty=pretty)
        route = c.get('route', 'rl')
        rel = c.get('relative', False)
        clu = loc['base'] + '/rs/caps.xml'
        if route in ('wk_base', 'wk_host', 'caplist'):
            href = 'rlist.xml' if rel else lu
            docs[clu] = doc('capabilitylist', [
                {'uri': loc['base'] + '/rs/cl.xml', 'capability': 'changelist'},
                {'uri': href, 'capability': 'resourcelist'}], pretty=pretty)
        if route in ('wk_base', 'wk_host'):
            href = clu
            if rel:
                href = '../rs/caps.xml' if route == 'wk_base' else clu[len(loc['host']):]
            docs[loc[route]] = doc('description', [{'uri': href, 'capability': 'capabilitylist'}],
                                   pretty=pretty)
        self.clu = clu
        if self.local:
            for u, d in docs.items():
                write_file(u, d)
        self.published = dict(self.res)
        self.nolen = bool(c.get('nolen'))
        self.listed_hashes = tuple(c.get('hashes') or ())

    def publish_real(self, variant=0):
        """Publish with the real resync-build, from files on the simulated disk."""
        w, c = self.world, self.conf
        top = w.p('srcroot')
        for rel, v in tree(top).items():
            if v is not None:
                _real['unlink'](top + '/' + rel)
        maps = []
        for i, (s, d) in enumerate(c['maps']):
            _real['makedirs'](top + '/%d' % i, exist_ok=True)
            maps.append('%s=%s' % (s, top + '/%d' % i))
        for uri, (data, ts) in self.res.items():
            for i, (s, d) in enumerate(c['maps']):
                if uri.startswith(s + '/'):
                    write_file(top + '/%d' % i + uri[len(s):], data, ts)
                    break
        loc = doc_locations(c)
        pub = w.p('pub')
        for rel, v in tree(pub).items():
            if v is not None:
                _real['unlink'](pub + '/' + rel)
        _real['makedirs'](pub, exist_ok=True)
        maps.append('%s/__lists=%s' % (loc['host'], pub))
        a = ['--write-resourcelist', '--outfile', pub + '/list.xml',
             '--paths', ','.join(top + '/%d' % i for i in range(len(c['maps'])))]
        for h in c.get('hashes') or ():
            a += ['--hash', h]
        if variant % 3:
            a += ['--max-sitemap-entries', str(variant % 3)]
        self.published = dict(self.res)
        self.nolen = False
        self.listed_hashes = tuple(c.get('hashes') or ())
        r = w.cli('build', 'resync-build', a + maps)
        if not r.ok:
            raise Violation('build: resync-build without any fault ended with %s' % r.brief())
        docs = self.server.docs
        docs.clear()
        lu = loc['host'] + '/__lists/list.xml'
        for rel, v in tree(pub).items():
            docs[loc['host'] + '/__lists/' + rel] = v[0]
        if lu not in docs:
            raise Violation('build: resync-build wrote no list')
        c['route'] = 'explicit'
        self.explicit_uri = lu
        w.sim.probe('real_publisher')

    # -- changes

    def record(self, uri, kind, t=None):
        """Note a change of a resource (already made) for the change list."""
        t = self.world.sim.now if t is None else t
        data, ts = self.res.get(uri, (None, None))
        self.changes.append({'t': t, 'uri': uri, 'change': kind, 'data': data, 'ts': ts})

    def publish_changes(self, since=0.0, uri=None, parts=0, times='both'):
        """Put a change list on the server. times: datetime, lastmod or both."""
        c = self.conf
        loc = doc_locations(c)
        lu = uri or loc['base'] + '/changelist.xml'
        entries = []
        listed = [ch for ch in self.changes if ch['t'] >= since - 5e-7]        # floats
        for ch in listed:
            e = {'uri': ch['uri'], 'change': ch['change']}
            if times in ('datetime', 'both'):
                e['datetime'] = iso(ch['t'], c.get('style', 0))
            if ch['data'] is not None:
                if not (c.get('nolen') or c.get('clnolen')):
                    e['length'] = len(ch['data'])
                if c.get('hashes'):
                    e['hash'] = hash_att(ch['data'], c['hashes'])
                if times == 'both':
                    e['lastmod'] = iso(ch['ts'], c.get('style', 0))
            if times == 'lastmod':
                e['lastmod'] = iso(ch['t'], c.get('style', 0))
            entries.append(e)
        docs = self.server.docs
        for u in [u for u in docs if u.startswith(lu[:-4])]:
            del docs[u]
        md = {'from': iso(min([ch['t'] for ch in listed] + [self.world.sim.now]))}
        if parts and entries:
            index = []
            for n, i in enumerate(range(0, len(entries), parts)):
                # the order is that of the index, not that of the names
                pu = lu[:-4] + ('%05d.xml' % n if c.get('pretty') else '-%d.xml' % (9 + n))
                docs[pu] = doc('changelist', entries[i:i + parts], md=md, pretty=c.get('pretty', False))
                index.append({'uri': pu})
            docs[lu] = doc('changelist', index, md=md, index=True, pretty=c.get('pretty', False))
        else:
            docs[lu] = doc('changelist', entries, md=md, pretty=c.get('pretty', False))
        if self.local:
            for u, d in docs.items():
                write_file(u, d)
        self.listed_changes = listed
        return lu

    # -- destination

    def classes(self):
        """Register the mapped directories with the simulator."""
        for (src, dst) in self.conf['maps']:
            self.world.dirs['dst'] = self.world.p('dst')

    def dst_tree(self):
        """{absolute path: (bytes, mtime)} of the files in the mapped directories."""
        out = {}
        for (src, dst) in self.conf['maps']:
            d = self.world.p(dst)
            for rel, v in tree(d).items():
                if v is not None:
                    out[d + '/' + rel] = v
        return out


def full_tree(world):
    """Everything below the scratch directory except its own tmp."""
    out = {}
    for rel, v in tree(world.root).items():
        if rel == 'tmp' or rel.startswith('tmp/'):
            continue
        out[rel] = v
    return out


def diff_trees(a, b, limit=4):
    """Readable differences between two trees, empty if there are none."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append('+%s' % k)
        elif k not in b:
            out.append('-%s' % k)
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            if x is None or y is None:
                out.append('%s changed kind' % k)
            elif x[0] != y[0]:
                out.append('%s changed content (%d -> %d bytes)' % (k, len(x[0]), len(y[0])))
            else:
                out.append('%s changed time (%r -> %r)' % (k, x[1], y[1]))
        if len(out) > limit:
            out.append('...')
            break
    return out


def cli_args(site, mode, o):
    c = site.conf
    w = site.world
    a = ['--' + mode]
    if o.get('delete'):
        a.append('--delete')
    if o.get('dryrun'):
        a.append('--dryrun')
    for h in o.get('hashes') or ():
        if h == 'md5' and o.get('checksum'):
            a.append('--checksum')
        else:
            a += ['--hash', h]
    if o.get('tries') is not None:
        a += ['--tries', str(o['tries'])]
    if o.get('timeout') is not None:
        a += ['--timeout', str(o['timeout'])]
    if o.get('ignore'):
        a.append('--ignore-failures')
    if o.get('delay') is not None:
        a += ['--delay', repr(o['delay'])]
    if o.get('token') is not None:
        a += ['--access-token', o['token']]
    if o.get('noauth'):
        a.append('--noauth')
    if o.get('strict'):
        a.append('--strictauth')
    if o.get('from') is not None:
        a += ['--from', o['from']]
    if o.get('changelist') is not None:
        a += ['--changelist-uri', o['changelist']]
    if o.get('spec') is not None:
        a += ['--spec-version', o['spec']]
    if o.get('verbose'):
        a.append('--verbose')
    if o.get('logfile'):
        a += ['--logger', '--eval', '--logfile', o['logfile']]
    a += o.get('logging') or []
    if o.get('sitemap') is not None:
        a += ['--sitemap', o['sitemap']]
    if o.get('caplist') is not None:
        a += ['--capabilitylist', o['caplist']]
    if o.get('nomulti'):
        a.append('--multifile')
    maps = [[s, w.p(d) if not o.get('reldst') else os.path.relpath(w.p(d), w.cwd)] for (s, d) in c['maps']]
    slash = '/' if c.get('slash') else ''
    if len(maps) == 1 and c.get('twoargs') and '=' not in maps[0][0]:
        a += [maps[0][0] + slash, maps[0][1] + slash]
    else:
        a += ['%s%s=%s%s' % (s, slash, d, slash) for (s, d) in maps]
    return a


def client(site, o):
    """A resync Client as set up by the documented API."""
    import resync.client
    from resync.url_or_file_open import set_url_or_file_open_config
    w = site.world
    c = resync.client.Client(hashes=o.get('hashes') or None, dryrun=bool(o.get('dryrun')),
                             **({'spec_version': o['spec']} if o.get('spec') else {}))
    c.set_mappings(cli_args(site, 'x', dict(reldst=o.get('reldst')))[1:])
    if o.get('tries') is not None:
        c.tries = o['tries']
    if o.get('timeout') is not None:
        c.timeout = o['timeout']
    if o.get('ignore'):
        c.ignore_failures = True
    if o.get('noauth'):
        c.noauth = True
    if o.get('strict'):
        c.strictauth = True
    if o.get('sitemap') is not None:
        c.sitemap_name = o['sitemap']
    if o.get('caplist') is not None:
        c.capability_list_uri = o['caplist']
    if o.get('nomulti'):
        c.allow_multifile = False
    if o.get('delay') is not None:
        set_url_or_file_open_config('delay', o['delay'])
    if o.get('token') is not None:
        set_url_or_file_open_config('bearer_token', o['token'])
    return c


def sync(site, op, mode, o, **kw):
    """Run one sync as a process of its own. mode: baseline, audit or incremental."""
    c = site.conf
    o = dict(o)
    if c.get('route') == 'explicit' and 'sitemap' not in o:
        o['sitemap'] = site.list_uri()
    if c.get('route') == 'caplist' and 'caplist' not in o:
        o['caplist'] = site.clu
    w = site.world
    if o.get('driver', c.get('driver', 'api')) == 'cli':
        return w.cli(op, 'resync-sync', cli_args(site, mode, o), **kw)

    def fn():
        cl = client(site, o)
        # what is not asked for is left to the defaults
        a = {'allow_deletion': True} if o.get('delete') else {}
        if mode == 'incremental':
            for k, v in (('change_list_uri', o.get('changelist')), ('from_datetime', o.get('from'))):
                if v is not None:
                    a[k] = v
            return cl.incremental(**a)
        if mode == 'audit':
            a['audit_only'] = True
        return cl.baseline_or_audit(**a)
    return w.run(op, fn, **kw)


CLIENT_ERRORS = ('ClientFatalError', 'ClientError', 'MapperError')


def fetched(o, site):
    """URIs of resource bodies requested during an outcome's operation."""
    return [uri for (t, m, uri, req, op) in site.server.requests if op == o.op and uri in site.server.files]


def parse_status(msg):
    """Status line -> (word, {name: count})."""
    import re
    m = re.match(r'^Status:\s+(.*?) \((.*)\)$', msg)
    if not m:
        raise Violation('status line: cannot be understood: %r' % msg)
    d = {}
    for item in m.group(2).split(', '):
        k, v = item.rsplit('=', 1)
        d[k.strip()] = int(v)
    return m.group(1), d


def same_file(v, data, ts, exact=True):
    """True if a tree entry has the bytes and time (to the second)."""
    if v is None or v[0] != data:
        return False
    if exact:
        return int(v[1]) == int(ts) if ts >= 0 else True
    return abs(v[1] - ts) < 1.0


def differs(v, data, ts, hashes=(), nolen=False):
    """True if the client can see that a local file is not the listed resource.

    v: tree entry. The client compares size (if listed), time (1 s) and the digests in use.
    None if it is too close to a boundary to say.
    """
    if v is None or v[0] == 'symlink':
        return True
    if len(v[0]) != len(data) and not nolen:
        return True
    d = abs(v[1] - ts)
    if d >= 1.001:
        return True
    if hashes and v[0] != data:
        return True
    if d > 0.999:
        return None
    return False


# -- common generation -------------------------------------------------------

MAPSETS = [
    [['{b}', 'dst/d0']],
    [['{b}', 'dst/d0']],
    [['{b}', 'dst']],
    [['{b}', 'dst/p.q'], ['{b}2', 'dst/p.q2']],
    [['{b}/one', 'dst/d'], ['{b}/one-b', 'dst/d-b']],
    [['{b}/x', 'dst/deep/er/x'], ['{b}/y', 'dst/y'], ['http://sub.{h}/z', 'dst/z']],
    [['{b}/m', 'dst/m+1(a)'], ['http://sub.{h}/m', 'dst/n']],
]


def gen_maps(rng):
    b = rng.choice(BASES)
    if b.count('/') == 2:
        b = rng.choice([b, b + '/q'])
    h = b.split('://')[1].split('/')[0]
    maps = rng.choice(MAPSETS)
    if b.count('/') == 2 and any('{b}2' in s for (s, d) in maps):
        b += '/q'
    return [[s.format(b=b, h=h), d] for (s, d) in maps]


def gen_conf(rng, local_ok=False):
    """A random site configuration."""
    conf = {'maps': gen_maps(rng), 'route': rng.choice(ROUTES), 'parts': rng.choice([0, 0, 0, 1, 2, 3, 5]),
            'style': rng.choice([0, 0, 1, 4]), 'pretty': rng.random() < 0.3,
            'driver': rng.choice(['api', 'cli']), 'slash': rng.random() < 0.2,
            'twoargs': rng.random() < 0.5, 'relative': rng.random() < 0.4, 'rs': True,
            'hashes': rng.choice([[], [], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-256'],
                                  ['sha-1', 'md5'], ['md5', 'sha-1', 'sha-256']])}
    if local_ok and rng.random() < 0.1:
        conf['local'] = True
        conf['maps'] = [['$R/src dir' if rng.random() < 0.2 else '$R/src', 'dst/d0']]
        conf['route'] = rng.choice(['rl', 'explicit'])
    return conf


# Names that can be fetched through file: URIs as they are
def local_names():
    return [n for n in NAMES if not any(c in n for c in "%?;#")]


# Local files that no resource of NAMES corresponds to or is blocked by
EXTRAS = ['zz-extra', 'd/extra', 'e/extra.bin', 'a.bak', 'new/dir/file', '.x', 'd/.y', 'e/f/zz',
          'res1.txt~', 'Thumbs.db', 'resourcelist.xml', 'x y']


def gen_ts(rng):
    """A source modification time, mostly well before the simulated start."""
    base = rng.choice([1e9, 1.2e9, 1.5e9, 1.59e9, 86400.0, 1599990000.0])
    t = base + rng.randrange(0, 2000)
    r = rng.random()
    if r < 0.35:
        t += rng.choice([0.5, 0.25, 0.999, 0.001, 0.123456, 0.000001])
    elif r > 0.97:
        # when time began, and before
        t = [0.0, 1.0, -1.0, 0.5, -86400.0 * 400, 2.0][int(t) % 6]
    return t


def gen_hashes(rng):
    return rng.choice([[], [], [], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-1'], ['md5', 'sha-256', 'sha-1']])


def put_distinct(site, uri, cid, size, ts):
    """Put a version whose difference to the one before can be seen by time and size."""
    old = site.res.get(uri)
    if site.conf.get('nolen'):
        # no time for two versions, as only the time is seen
        used = site.times.setdefault(uri, [])
        while any(abs(ts - t) < 4 for t in used):
            ts += 7
        used.append(ts)
    elif old is not None and len(old[0]) == size:
        if abs(ts - old[1]) < 2.01:
            ts = old[1] + 3
    site.put(uri, cid, size, ts)


def damage(site, step):
    """Apply a local change: ['local', kind, selector, arg]. No seams."""
    kind, sel, arg = step[1], step[2], step[3]
    w = site.world
    t = site.dst_tree()
    now = w.sim.now
    if kind == 'extra':
        d = w.p(site.conf['maps'][sel % len(site.conf['maps'])][1])
        p = d + '/' + EXTRAS[arg % len(EXTRAS)]
        if not os.path.isdir(p) and _can_make(p, w.root):
            write_file(p, content(7000 + arg, arg % 50), now - 1000)
        return
    if kind == 'emptydir':
        d = w.p(site.conf['maps'][sel % len(site.conf['maps'])][1])
        _real['makedirs'](d + '/zdir%d/sub' % (arg % 3), exist_ok=True)
        return
    files = sorted(k for k, v in t.items() if v[0] != 'symlink')
    if not files:
        return
    p = files[sel % len(files)]
    data, mt = t[p]
    # another size is not seen with lists without sizes
    seen = -50000 if site.conf.get('nolen') else 0
    if kind == 'rm':
        _real['unlink'](p)
    elif kind == 'trunc':
        if data:
            write_file(p, data[:arg % len(data)], mt + seen)
    elif kind == 'append':
        write_file(p, data + content(8000 + arg, 1 + arg % 9), mt + seen)
    elif kind == 'touch':
        write_file(p, data, mt + seen + (arg % 100 + 2) * (-1 if arg % 2 else 1))
    elif kind == 'flip':
        # same size and time, other bytes: only digests can tell
        if data:
            i = arg % len(data)
            write_file(p, data[:i] + bytes([data[i] ^ 1]) + data[i + 1:], mt)


def _can_make(path, root):
    d = os.path.dirname(path)
    while d != root and not os.path.isdir(d):
        if os.path.lexists(d):
            return False
        d = os.path.dirname(d)
    return True


DAMAGES = ['extra', 'extra', 'emptydir', 'rm', 'trunc', 'append', 'touch']


def bystanders(site):
    """Files that no sync has any reason to touch."""
    w = site.world
    t = w.sim.now - 5000.5
    names = ['other/keep', 'home/.rc', 'cwd/notes.txt', 'cwd/.resync-client-status.cfg.bak']
    for (s, d) in site.conf['maps']:
        names.append(d + 'x/keep')
        if '/' in d:
            names.append(os.path.dirname(d) + '/keep.me')
    for n in names:
        if not any((n + '/').startswith(d + '/') for (s, d) in site.conf['maps']):
            write_file(w.p(n), content(9000, 40), t)


def fault_sum(sim, kinds):
    return sum(v for k, v in sim.faults.items() if any(x in k for x in kinds))


SCAN_FAULTS = ('@stat', '@lstat', '@scandir', '@open', '@read', '@readdir')

NET_ALL = ('refuse', 'dns', 'unreach', 'ctimeout', 'stall_head', 'stall_body', 'reset_send', 'reset_head',
           'close_head', 'garbage', 's403', 's404', 's410', 's429', 's500', 's502', 's503', 's504', 'trunc',
           'reset_body', 'badchunk', 'redirect_loop')


def gen_faults(rng, heavy=False):
    """Random fault settings for one faulty process."""
    f = {}
    r = rng.random()
    if r < 0.45:
        f['crash'] = round(rng.random(), 4)
        f['mode'] = rng.choice(['before', 'after', 'torn', 'torn', 'sigint'])
    if r > 0.3 and rng.random() < 0.6:
        f['net'] = {'p': rng.choice([0.05, 0.2, 0.5]), 'kinds': list(NET_ALL) if rng.random() < 0.5
                    else rng.sample(NET_ALL, 3)}
    if r > 0.3 and rng.random() < 0.6:
        fs = {'p': rng.choice([0.01, 0.05, 0.2]), 'short': rng.random() < 0.3,
              'sticky_full': rng.random() < 0.3}
        if rng.random() < 0.5:
            fs['kinds'] = rng.choice([['enospc'], ['eio'], ['eacces'], ['enospc', 'edquot'], ['emfile'], ['erofs']])
        if rng.random() < 0.5:
            fs['only'] = rng.choice([['dst'], ['state']])
        if rng.random() < 0.5:
            fs['calls'] = ['write', 'openw', 'mkdir', 'close', 'utime', 'unlink', 'replace', 'rename', 'truncate']
        f['fs'] = fs
    f['skew'] = rng.choice([0, 0, 0, -5, 7200, 1e6, -1e8])
    return f


def slow(site, spec):
    """Requests for resources, from a certain one on, that time out a number of times, as uri_fault."""
    n = [0]

    def fn(uri):
        if uri in site.res:
            n[0] += 1
            if 0 < n[0] - spec[0] <= spec[1]:
                return [spec[2], 0.5]
        return None
    return fn


def gen_slow(rng):
    return [rng.choice([0, 0, 1, 2, 4]), rng.choice([1, 1, 2, 3, 9]), rng.choice(['stall_head', 'stall_head', 'stall_body'])]


def run_args(f, targets):
    """Arguments of World.run for fault settings and an estimate of the work."""
    kw = {'skew': f.get('skew', 0)}
    if f.get('crash') is not None:
        kw['crash_at'] = 1 + int(f['crash'] * (5 * targets + 5))
        kw['crash_mode'] = f['mode']
    if f.get('net'):
        kw['net_cfg'] = dict(f['net'])
    if f.get('fs'):
        kw['fs_cfg'] = dict(f['fs'])
    return kw


def restore(world, snap):
    """Put the scratch directory back to what full_tree() returned."""
    now = full_tree(world)
    for rel in sorted(now, reverse=True):
        p = world.p(rel.rstrip('/'))
        if rel.endswith('/'):
            if rel not in snap and rel != 'cwd/':
                _real['rmdir'](p)
        elif now[rel] != snap.get(rel, ()):
            _real['unlink'](p)
    for rel, v in sorted(snap.items()):
        p = world.p(rel.rstrip('/'))
        if rel.endswith('/'):
            _real['makedirs'](p, exist_ok=True)
        elif now.get(rel, ()) != v:
            if v[0] == 'symlink':
                _real['symlink'](v[1], p)
            else:
                write_file(p, v[0], v[1])


def without_times(tree):
    return {k: (v and v[0]) for k, v in tree.items()}
