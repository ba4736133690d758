"""C12: dump packages are complete and faithful."""

import os
import re
import zipfile

from sim import model
from sim.core import Violation
from sim.fs import read_file, tree, write_file, _real
from sim.source import content, digest, parse_iso, read_doc, ReadError

BUDGET = {'quick': {'runs': 7000, 'wall': 120}, 'thorough': {'runs': 250000, 'wall': 1500}}
RULE = ('one run writes a dump of a random tree one to three times with the same or a new Dump object, under disk '
        'errors, full disks, short reads and writes, kills, and files that grow, shrink, vanish or are replaced '
        'between any two system calls; non-trivial if a package was written or a problem was reported')
LISTS = ('files', 'writes')
REAL = ('resync.dump, resource_dump_manifest, resource_list, sitemap, resource_list_builder, resync-build, zipfile of '
        'the standard library as writer')
STUBS = 'clock, faults and crashes of the file system, the processes that change files (actions between calls)'
ASSUMPTIONS = ('every resource has a local file of its own',
               'packages are read back with zipfile of the standard library and the independent document reader',
               'a file that keeps its size while its content changes during the dump is not detected')
DEFAULT_SIZE = 100 * 1024 * 1024

DIRS = ['', '', '', 'd', 'd/e', 'D', 'x y', 'd/e/f/g', 'dx', 'd/ex', 'dx/e']
NAMES = model.NAMES + ['manifest.xml', 'manifest.xml', 'Manifest.xml', '\u00fc', '\u4e2d\u6587', "q'\"&<>", 'a\\b', '-x',
                       '..a', 'long' * 20, 'a.zip', ' b', 'nl\nx']


def plan(rng, tier):
    files, seen = [], []
    dirs = DIRS if rng.random() < 0.5 else rng.sample(DIRS, 2)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 20])):
        d = rng.choice(dirs)
        n = rng.choice(NAMES) if rng.random() < 0.8 else 'f%d' % rng.randrange(30)
        rel = (d + '/' if d else '') + n
        if any(o == rel or o.startswith(rel + '/') or rel.startswith(o + '/') for o in seen):
            continue
        seen.append(rel)
        ts = rng.choice([0, 3e8, 5e9, 4294967296.5]) if rng.random() < 0.04 else round(model.gen_ts(rng), 6)
        files.append([rel, rng.choice([0, 1, 5, 100, 100, 1000, 3000, 9000, 40000]) if rng.random() < 0.9
                      else rng.randrange(70000), ts, rng.randrange(1000)])
    kind = rng.choice(['list', 'list', 'rl', 'cl', 'build', 'cli'])
    sizes = [f[1] for f in files] or [0]
    maxs = None
    if rng.random() < 0.55:
        maxs = rng.choice([max(sizes), max(sizes) + rng.choice([0, 1, 50]), max(max(sizes), sum(sizes) // 2),
                           max(max(sizes), sum(sizes) // 3 + 1), sum(sizes), sum(sizes) + 1])
        if rng.random() < 0.1:
            maxs = max(0, max(sizes) - 1)
    writes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        f, c, env = {}, None, 0
        if r < 0.3:
            f = {'p': rng.choice([0.02, 0.1, 0.3]), 'only': ['data'], 'calls': rng.choice([['open'], ['read'], ['stat'], ['open', 'read', 'stat']])}
        elif r < 0.5:
            f = {'p': rng.choice([0.02, 0.1, 0.3]), 'only': ['out'], 'sticky_full': rng.random() < 0.3}
        elif r < 0.6:
            c = [round(rng.random(), 4), rng.choice(['before', 'after', 'torn', 'sigint'])]
        elif r < 0.8:
            env = rng.choice([0.02, 0.05, 0.2])
        f['short'] = rng.random() < 0.3
        writes.append({'fs': f, 'crash': c, 'env': env, 'new': rng.random() < 0.3})
    bad = None
    if rng.random() < 0.12 and files:
        bad = [rng.choice(['nopath', 'missing', 'length', 'dir', 'bigger']), rng.randrange(50)]
    return {'files': files, 'kind': kind, 'order': rng.randrange(1000), 'form': rng.choice(['abs', 'abs', 'abs', 'rel', 'dot', 'mix', 'ups']),
            'top': rng.choice(['data', 'data', 'data', 'data/deep/er', 'manifest.xml']),
            'hashes': model.gen_hashes(rng), 'meta': rng.randrange(1000), 'length': rng.choice(['all', 'all', 'none', 'some']),
            'max_files': rng.choice([None, None, None, 1, 2, 3, 5, 7]), 'max_size': maxs,
            'compress': rng.random() < 0.7, 'separate': rng.random() < 0.6, 'writes': writes, 'bad': bad,
            'format': rng.choice(['warc', 'warc', 'tar', 'ZIP', '']) if rng.random() < 0.04 else None,
            'base': rng.choice(['rd_', 'dump', 'sub/x', 'p.q'])}


OWN = ('list', 'rl', 'cl')
BASE = 'http://example.org/data'


def meta_for(plan, k, data, ts):
    """What a resource says about itself: lastmod, digests, type."""
    n = (plan['meta'] + k) % 5
    return {'ts': None if n == 4 and plan['kind'] in OWN else ts,
            'change': [None, 'updated', 'created'][n % 3] if plan['kind'] == 'list' else 'created' if plan['kind'] == 'cl' else None,
            'type': 'text/plain' if n in (1, 4) and plan['kind'] in OWN else None,
            'hash': {h: digest(data, h) for h in plan['hashes']} if n != 2 or plan['kind'] in ('build', 'cli') else {}}


def path_as(world, plan, k, p):
    form = plan['form']
    r = '../' + os.path.relpath(p, world.root)
    if form == 'abs' or form == 'mix' and k % 2:
        return p
    if form == 'dot':
        return './' + r
    if form == 'ups':
        return '../' + os.path.basename(world.cwd) + '/' + r
    return r


class Case(object):
    def __init__(self, world, plan):
        from resync.resource import Resource
        self.world, self.plan = world, plan
        self.top = world.p(plan['top'])
        world.dirs['data'] = world.p(plan['top'].split('/')[0])
        world.dirs['out'] = world.p('out')
        _real['makedirs'](self.top, exist_ok=True)
        _real['makedirs'](world.p('out/sub'), exist_ok=True)
        self.want = {}      # uri -> dict(path, data, meta)
        self.grown = set()  # paths that were changed in size
        self.versions = {}  # path -> contents it had
        self.order = []
        for rel, size, ts, cid in plan['files']:
            p = self.top + '/' + rel
            if os.path.lexists(p) or not model._can_make(p, self.top):
                continue
            if plan['kind'] == 'cli' and any(ord(c) < 32 for c in rel):
                continue
            data = content(cid, size) if cid >= 0 else bytes(size)
            write_file(p, data, ts)
            uri = BASE + '/' + rel
            self.order.append(uri)
            self.want[uri] = {'path': p, 'len': size, 'meta': meta_for(plan, len(self.order), data, ts)}
            self.versions[p] = [data]
        # the order of a list of one's own
        import random
        random.Random(plan['order']).shuffle(self.order)
        self.max_size = DEFAULT_SIZE if plan['max_size'] is None or plan['kind'] == 'cli' else plan['max_size']
        self.bad = None
        self.dump = None
        self.resources = None
        if plan['bad'] and self.order and plan['kind'] in OWN:
            self.bad = [plan['bad'][0], self.order[plan['bad'][1] % len(self.order)]]

    def make(self):
        """Resources as the caller has them."""
        from resync.change_list import ChangeList
        from resync.client import Client
        from resync.resource import Resource
        from resync.resource_list import ResourceList
        plan = self.plan
        args = ['%s=%s' % (BASE, path_as(self.world, plan, 0, self.top))]
        if plan['kind'] == 'build':
            c = Client(hashes=list(plan['hashes']))
            c.set_mappings(args)
            return c.build_resource_list(set_path=True)
        out = []
        for k, uri in enumerate(self.order):
            w = self.want[uri]
            length = w['len']
            if plan['length'] == 'none' or plan['length'] == 'some' and k % 2:
                length = None
            p = path_as(self.world, plan, k, w['path'])
            if self.bad and self.bad[1] == uri:
                if self.bad[0] == 'nopath':
                    p = None
                elif self.bad[0] == 'missing':
                    p += '.not'
                elif self.bad[0] == 'length':
                    length = w['len'] + 1
                elif self.bad[0] == 'bigger':
                    length = max(0, w['len'] - 1) if w['len'] else 3
                elif self.bad[0] == 'dir':
                    p = path_as(self.world, plan, k, os.path.dirname(w['path']))
            m = w['meta']
            r = Resource(uri, timestamp=m['ts'], length=length, path=p, mime_type=m['type'], change=m['change'],
                         md5=m['hash'].get('md5'), sha1=m['hash'].get('sha-1'), sha256=m['hash'].get('sha-256'))
            out.append(r)
        if plan['kind'] != 'list':
            rl = ResourceList() if plan['kind'] == 'rl' else ChangeList()
            for r in out:
                rl.add(r)
            return rl
        return out

    def refresh(self):
        """The files are looked at afresh."""
        for u in sorted(self.want):
            p = self.want[u]['path']
            if not os.path.lexists(p):
                del self.want[u]
                self.order.remove(u)
                del self.versions[p]
                continue
            with open(p, 'rb') as f:
                data = f.read()
            self.versions[p] = [data]
            self.want[u]['len'] = len(data)
            self.want[u]['meta'] = meta_for(self.plan, 0, data, _real['stat'](p).st_mtime)
        self.grown = set()

    def new_dump(self):
        from resync.dump import Dump
        plan = self.plan
        d = Dump(resources=self.resources, compress=plan['compress'], format=plan.get('format'))
        if plan['max_files'] is not None:
            d.max_files = plan['max_files']
        if plan['max_size'] is not None:
            d.max_size = plan['max_size']
        return d

    # -- changes by others -----------------------------------------------

    def act(self, a, x):
        ps = sorted(self.versions)
        if not ps:
            return
        p = ps[min(int(x * len(ps)), len(ps) - 1)]
        if a == 'vanish':
            if os.path.lexists(p):
                _real['unlink'](p)
                self.grown.add(p)
            return
        try:
            n = _real['stat'](p).st_size
        except OSError:
            n = 10
        size = {'grow': n + 1 + n // 2, 'shrink': n // 2, 'same': n, 'empty': 0, 'huge': n + 200000}[a]
        data = content(5000 + len(self.versions[p]) * 31 + len(p), size)
        if size != n:
            self.grown.add(p)
        self.versions[p].append(data)
        mt = self.world.sim.now - 5
        if a == 'grow':
            write_file(p, data, mt)
        else:
            # written in place
            with open(p, 'r+b' if os.path.lexists(p) else 'wb') as f:
                f.write(data)
                f.truncate()
            ns = int(round(mt * 1000000)) * 1000
            _real['utime'](p, ns=(ns, ns))


def snapshot(resources):
    return [(r.uri, r.path, r.timestamp, r.md5, r.sha1, r.sha256, r.mime_type, r.change) for r in resources]


def packages(base, ext='zip'):
    d, b = os.path.split(base)
    return sorted(n for n in os.listdir(d) if re.match(re.escape(b) + r'\d{5}\.' + ext + '$', n))


def execute(world, plan):
    sim = world.sim
    c = Case(world, plan)
    base = world.p('out/' + plan['base'])
    muts = 0
    built = False
    for k, w in enumerate(plan['writes'] + [{'fs': {}, 'crash': None, 'env': 0, 'new': False, 'final': True}]):
        final = w.get('final')
        op = 'write%d' % k
        sim.op = op
        sim.advance(50.3)
        if final and (c.bad or not any(x['fs'].get('p') or x['crash'] for x in plan['writes'])):
            break
        for n in packages(base) + packages(base, 'xml'):
            _real['unlink'](os.path.join(os.path.dirname(base), n))
        cli = plan['kind'] == 'cli'
        fresh = cli or not built or w['new'] and not c.grown
        if fresh and plan['kind'] in ('build', 'cli'):
            c.refresh()
        if fresh and not cli:
            r = world.run(op + 'make', c.make)
            if not r.ok:
                raise Violation('failed: the list could not be made: %s %s' % (r.brief(), r.where))
            c.resources = r.value
            c.dump = c.new_dump()
            built = True
            for x in c.resources:
                if x.uri not in c.want:
                    raise Violation('list: %s' % x.uri)
        before = None if cli else snapshot(c.resources)
        fl = len(sim.fault_log)
        acted = [0]
        disk0 = tree(c.top)

        def hook(sim, what, detail):
            if w['env'] and what in ('open', 'read', 'stat', 'openw', 'write', 'close'):
                a = sim.choose('env', None, lambda r: [r.choice(['grow', 'shrink', 'same', 'empty', 'vanish', 'huge']), round(r.random(), 4)]
                               if r.random() < w['env'] else None)
                if a is not None:
                    acted[0] += 1
                    sim.event('env', a)
                    c.act(*a)
                    sim.fault('file_' + a[0])
        sim.on_point = hook
        sim.op = op
        kw = {'fs_cfg': w['fs']}
        if w['crash']:
            kw['crash_at'] = 1 + int(w['crash'][0] * (muts or 12))
            kw['crash_mode'] = w['crash'][1]
        try:
            if cli:
                a = ['--write-resourcedump', '--outfile', base]
                for h in plan['hashes']:
                    a += ['--hash', h]
                if plan.get('format') == 'warc':
                    a.append('--warc')
                r = world.cli(op, 'resync-build', a + ['%s=%s' % (BASE, path_as(world, plan, 0, c.top))], **kw)
            else:
                r = world.run(op, lambda: c.dump.write(base, plan['separate']), **kw)
        finally:
            sim.on_point = None
        sim.op = op + 'check'
        muts = max(muts, r.muts)
        faults = sim.fault_log[fl:]
        if r.kind == 'hang':
            raise Violation('hang: %s' % r.msg)
        if not acted[0] and tree(c.top) != disk0:
            raise Violation('source: writing the dump changed the files')
        if r.kind == 'crash':
            built = False       # gone with the process
            continue
        if not cli and snapshot(c.resources) != before:
            raise Violation('changed: the resources were changed by writing the dump: %s -> %s'
                            % tuple([x for x, y in zip(before, snapshot(c.resources)) if x != y][0:1] +
                                    [y for x, y in zip(before, snapshot(c.resources)) if x != y][0:1]))
        toobig = not cli and any(x['len'] > c.max_size for x in c.want.values())
        if plan.get('format') is not None and (not cli or plan['format'] == 'warc') and c.want:
            # no library for it here, or no such format
            sim.probe('format refused')
            if cli and (faults or acted[0]):
                continue        # there may be no file left to put into a dump
            if r.ok or packages(base) or r.kind == 'error' and r.exc != 'DumpError' and not faults and not must_fail0(c, toobig) \
                    and not acted[0] and not c.grown:
                raise Violation('format: a dump in format %r ended with %s' % (plan['format'], r.brief()))
            continue
        # a size that was wrong may have become right, or small enough, since
        must_fail = (c.bad is not None or toobig) and not \
            (c.grown and (c.bad is None or c.bad[0] in ('length', 'bigger')))
        if r.ok:
            if must_fail:
                raise Violation('accepted: a dump was written although %s' % (c.bad or 'a file is larger than the limit'))
            check(world, plan, c, base, None if cli else r.value, cli, faults)
            world.nontrivial = True
            sim.probe('dump written')
            continue
        sim.probe('error reported')
        if r.kind == 'error' and not r.exc:
            raise Violation('odd: %s' % r.brief())
        if must_fail or c.grown or any(p for p in c.versions if not os.path.lexists(p)):
            if r.exc not in ('DumpError', 'FileNotFoundError', 'OSError', 'ClientFatalError', 'PermissionError', 'IsADirectoryError') \
                    and not faults:
                raise Violation('odd: %s for a problem with a file' % r.brief())
            world.nontrivial = True
            continue
        if not faults:
            raise Violation('failed: writing the dump ended with %s %s' % (r.brief(), r.where))
        world.nontrivial = True


def must_fail0(c, toobig):
    return c.bad is not None or toobig


def check(world, plan, c, base, n, cli, faults):
    names = packages(base)
    d = os.path.dirname(base)
    if [os.path.basename(base) + '%05d.zip' % i for i in range(len(names))] != names:
        raise Violation('names: the packages are %s' % names)
    if n is not None and n != len(names):
        raise Violation('count: %s reported, %d packages there' % (n, len(names)))
    beside = packages(base, 'xml')
    if beside != ([x[:-3] + 'xml' for x in names] if cli or plan['separate'] else []):
        raise Violation('beside: the packages are %s, the manifests beside them %s' % (names, beside))
    where = {}
    skipped = set()
    if cli:
        # files that could not be looked at are left out of the list (see C10)
        bad = {f[3].split(' (')[0] for f in faults if '@' in f[2]}
        for u, x in c.want.items():
            p = x['path']
            while len(p) >= len(c.top):
                if p in bad:
                    skipped.add(u)
                p = os.path.dirname(p)
            if x['path'] in c.grown:
                skipped.add(u)
    for name in names:
        try:
            zf = zipfile.ZipFile(os.path.join(d, name))
            members = zf.infolist()
            datas = {}
            for m in members:
                if m.filename in datas:
                    raise Violation('twice: %s is in %s twice' % (m.filename, name))
                datas[m.filename] = zf.read(m)
                if (m.compress_type == zipfile.ZIP_DEFLATED) != bool(cli or plan['compress']):
                    raise Violation('compression: %s in %s has type %d' % (m.filename, name, m.compress_type))
            zf.close()
        except (zipfile.BadZipFile, EOFError, OSError, ValueError, KeyError, NotImplementedError) as e:
            raise Violation('damaged: %s: %s' % (name, e))
        except Exception as e:
            if type(e).__name__ != 'error':
                raise
            raise Violation('damaged: %s: %s' % (name, e))
        if 'manifest.xml' not in datas:
            raise Violation('manifest: none in %s: %s' % (name, sorted(datas)))
        try:
            doc = read_doc(datas['manifest.xml'])
        except ReadError as e:
            raise Violation('manifest: %s: %s' % (name, e))
        if doc['index'] or doc['md'].get('capability') != 'resourcedump-manifest':
            raise Violation('manifest: %s says %s' % (name, doc['md']))
        if beside:
            try:
                doc2 = read_doc(read_file(os.path.join(d, name[:-3] + 'xml')))
            except ReadError as e:
                raise Violation('beside: manifest of %s: %s' % (name, e))
            if doc2['md'] != doc['md'] or doc2['index'] or \
                    sorted(map(str, doc2['entries'])) != sorted(map(str, doc['entries'])):
                i = [a for a in doc2['entries'] if a not in doc['entries']]
                raise Violation('beside: the manifest beside %s says %s %s, that in it %s %s'
                                % (name, doc2['md'], i[:1], doc['md'], [a for a in doc['entries'] if i and a['uri'] == i[0]['uri']]))
        paths = [e['md'].get('path') for e in doc['entries']]
        if len(set(paths)) != len(paths):
            raise Violation('twice: a path is in the manifest of %s twice: %s' % (name, paths))
        if set(paths) != set(datas) - {'manifest.xml'}:
            raise Violation('members: %s has files %s, its manifest lists %s' % (name, sorted(set(datas) - {'manifest.xml'}), sorted(map(str, paths))))
        for e in doc['entries']:
            u, p = e['uri'], e['md']['path']
            if p.startswith('/') or '..' in p.split('/') or '.' in p.split('/') or '' in p.split('/'):
                raise Violation('path: %s has path %s' % (u, p))
            if u not in c.want:
                raise Violation('extra: %s is in the manifest' % u)
            if u in where:
                raise Violation('twice: %s is in %s and %s' % (u, where[u], name))
            where[u] = name
            x = c.want[u]
            if not x['path'].endswith('/' + p):
                raise Violation('path: %s, a copy of %s, has path %s' % (u, x['path'].replace(world.root, ''), p))
            data = datas[p]
            if int(e['md'].get('length', -1)) != len(data):
                raise Violation('length: %s has %d bytes, the manifest says %s' % (u, len(data), e['md'].get('length')))
            vs = c.versions[x['path']]
            if len(vs) == 1 and data != vs[0]:
                raise Violation('content: %s has other bytes than its file' % u)
            if len(vs) > 1 and len(data) < 8192 and not any(data == v for v in vs):
                raise Violation('content: %s has bytes that its file never had' % u)
            hs = dict(h.split(':', 1) for h in e['md'].get('hash', '').split())
            if cli and len(vs) > 1:
                continue
            if hs != x['meta']['hash']:
                raise Violation('hash: %s is listed with %s instead of %s' % (u, hs, x['meta']['hash']))
            if e['md'].get('type') != x['meta']['type']:
                raise Violation('type: %s is listed with %s instead of %s' % (u, e['md'].get('type'), x['meta']['type']))
            if e['md'].get('change') != x['meta']['change']:
                raise Violation('change: %s is listed with %s instead of %s' % (u, e['md'].get('change'), x['meta']['change']))
            ts = parse_iso(e['lastmod']) if 'lastmod' in e else None
            if (ts is None) != (x['meta']['ts'] is None) or ts is not None and abs(ts - x['meta']['ts']) > 2e-6:
                raise Violation('time: %s is listed with %s instead of %s' % (u, ts, x['meta']['ts']))
        # limits
        if plan['max_files'] is not None and not cli and len(paths) > plan['max_files']:
            raise Violation('files: %s has %d files, the limit is %d' % (name, len(paths), plan['max_files']))
        if name != names[-1] and not (
                plan['max_files'] is not None and len(paths) >= plan['max_files']
                or sum(int(e['md']['length']) for e in doc['entries']) >= c.max_size):
            raise Violation('early: %s has only %d files' % (name, len(paths)))
        if not cli:
            order = [r.uri for r in c.resources]
            mine = sorted((order.index(e['uri']), int(e['md']['length'])) for e in doc['entries'])
            if len(mine) > 1 and sum(s for _, s in mine[:-1]) >= c.max_size:
                raise Violation('size: %s went on with %s after reaching %d' % (name, mine, c.max_size))
    missing = sorted(set(c.want) - set(where) - skipped)
    if missing:
        raise Violation('missing: %s is in no package' % missing)
    if names and not c.want and n:
        raise Violation('empty: %s for nothing' % names)


def _scenario(sizes, **kw):
    d = {'files': [['f%d' % i, n, 1e9, -1] for i, n in enumerate(sizes)], 'kind': 'rl', 'order': 1, 'form': 'abs',
         'top': 'data', 'hashes': [], 'meta': 0, 'length': 'all', 'max_files': None, 'max_size': None, 'compress': True,
         'separate': False, 'writes': [{'fs': {}, 'crash': None, 'env': 0, 'new': False}], 'bad': None, 'base': 'rd_'}
    d.update(kw)
    return d


MB = 1024 * 1024
# the documented default limit of 100 MB; the seeds use smaller ones
SCENARIOS = {'limit': _scenario([50 * MB, 50 * MB - 1, 1, 1]), 'over_limit': _scenario([100 * MB + 1]),
             'repeat': _scenario([5, 7], writes=[{'fs': {}, 'crash': None, 'env': 0, 'new': False}] * 2)}
