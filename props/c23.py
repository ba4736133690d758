"""C23: what the build script publishes the sync script can follow."""

import os
import re

from sim import model
from sim.core import Violation
from sim.fs import read_file, tree, write_file, _real
from sim.model import diff_trees
from sim.source import Response, Server, content

BUDGET = {'quick': {'runs': 2600, 'wall': 120}, 'thorough': {'runs': 150000, 'wall': 1500}}
RULE = ('one run is a history of a source and a client: files change, resync-build publishes snapshots and the changes between '
        'successive ones, resync-sync follows, under network and disk faults, crashes of both, and changes while lists are made '
        'and files are fetched, until all calms down; non-trivial if an incremental sync completed in the run')
LISTS = ('start', 'steps')
REAL = ('resync-build, resync-sync and all modules of the library they use (client, resource_list_builder, lists, sitemap, '
        'mapper, client_state, url_authority, hashes), urllib.request, http.client, configparser, shutil')
STUBS = 'web server of the source, clock, network below the socket calls, faults and crashes of the file system'
ASSUMPTIONS = ('the clock of the source does not go backwards', 'files that change get another size',
               'a list in several parts is not fetched while it is being replaced (known finding of C03)',
               'writing a list is repeated until it has succeeded')
HOST = 'http://example.org'
BASE = HOST + '/base'
LISTS_EX = ['resourcelist.*xml', 'changelist.*xml', 'caps.xml', 'description.xml']
SCAN = ['stat', 'open', 'read', 'scandir', 'readdir', 'write', 'close', 'openw']


def gen_edit(rng, names):
    return [rng.choice(['put', 'put', 'put', 'put', 'del', 'del', 'move', 'again']), rng.choice(names), rng.randrange(50),
            rng.choice(['now', 'now', 'past', 'past', 'future', 'frac']), rng.choice([0, 0, 0.001, 0.3, 5, 4000])]


def gen_opts(rng):
    return {'driver': rng.choice(['cli', 'cli', 'api']), 'delete': True, 'hashes': model.gen_hashes(rng),
            'timeout': rng.choice([10, 60]), 'tries': rng.choice([1, 3]), 'ignore': rng.random() < 0.4}


def plan(rng, tier):
    names = [n for n in model.pick_names(rng, rng.choice([3, 6, 12])) if not re.match(r'resourcelist|changelist', n)] or ['a']
    if rng.random() < 0.006:
        names += ['k/%03d' % i for i in range(rng.choice([80, 150]))]
    start = [['put', n, rng.randrange(50), rng.choice(['past', 'past', 'now', 'future', 'frac']), 0]
             for n in rng.sample(names, rng.randrange(1, len(names) + 1))]
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = rng.random()
        eds = [gen_edit(rng, names) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        f = {}
        if rng.random() < 0.25:
            f['crash'] = [round(rng.random(), 4), rng.choice(['before', 'after', 'torn', 'sigint'])]
        elif rng.random() < 0.2:
            f['fs'] = {'p': rng.choice([0.03, 0.2]), 'only': ['lists', 'snap'], 'short': rng.random() < 0.5}
        late = None
        if rng.random() < 0.2:
            late = [rng.randrange(1, 40), [gen_edit(rng, names) for _ in range(rng.choice([1, 2]))]]
        steps.append(['publish', eds, f, late])
        for i in range(rng.choice([0, 1, 1, 1, 1, 2])):
            mode = rng.choice(['incremental', 'incremental', 'incremental', 'incremental', 'baseline', 'audit', 'dryrun'])
            if not any(s[0] == 'sync' for s in steps) and rng.random() < 0.9:
                mode = 'baseline'
            f = {}
            if rng.random() < 0.3:
                f = model.gen_faults(rng)
            if rng.random() < 0.2:
                f['skew'] = rng.choice([-5, 7200, 1e6, -1e8])
            late = None
            if rng.random() < 0.2:
                late = [rng.randrange(1, 9), [gen_edit(rng, names) for _ in range(rng.choice([1, 2]))]]
            steps.append(['sync', mode, gen_opts(rng), f, late])
    return {'start': start, 'steps': steps, 'names': names, 'inside': rng.random() < 0.5,
            'route': rng.choice(['list', 'list', 'caps', 'site', 'base']), 'links': rng.random() < 0.4,
            'limit': rng.choice([None, None, None, 1, 2, 5]), 'hashes': model.gen_hashes(rng), 'new': rng.random() < 0.5,
            'reldst': rng.random() < 0.2, 'token': rng.random() < 0.2, 'api': rng.random() < 0.3, 'last': gen_opts(rng)}


def good(r):
    return r.ok and 'FatalError' not in r.stderr


class Run(object):
    def __init__(self, world, plan):
        self.w, self.plan = world, plan
        self.sim = world.sim
        self.src = world.p('src')
        self.dst = world.p('dst')
        self.snap = world.p('snap')
        self.pub = self.src if plan['inside'] else world.p('pub')
        for d in (self.src, self.dst, self.snap, self.pub):
            _real['makedirs'](d, exist_ok=True)
        world.dirs.update(src=self.src, dst=self.dst, lists=self.pub, snap=self.snap)
        self.w.dirs['state'] = world.cwd
        write_file(world.p('other/keep'), b'keep', self.sim.now - 1000)
        self.server = Server(world)
        self.server.hook = self.serve
        self.cid = 0
        self.at = BASE if plan['inside'] else HOST + '/lists'
        self.k = self.current = 0   # snapshots taken, the one published
        self.client = None          # the snapshot that the client has
        self.tracked = False        # the client has recorded a starting point
        self.want = None            # files of the current snapshot
        self.loose = self.fresh = set()     # names changed since it was begun, since the next was
        self.whole = True           # publishing was completed
        self.late = None
        self.n = 0

    def is_list(self, rel):
        return any(re.match(p, rel.rsplit('/', 1)[-1]) for p in LISTS_EX)

    def files(self):
        return {r: v for r, v in tree(self.src).items() if v is not None and not self.is_list(r)}

    # -- the source ------------------------------------------------------

    def edit(self, e):
        kind, name, i, when, gap = e
        self.sim.advance(gap)
        have = sorted(self.files())
        if kind in ('del', 'move', 'again') and not have:
            kind = 'put'
        self.cid += 1
        t = {'now': float(int(self.sim.now)), 'past': 1.3e9 + self.cid * 1000, 'future': self.sim.now + 1e6 * (1 + self.cid % 3),
             'frac': round(self.sim.now - 0.123457, 6)}[when]
        size = self.cid * 5 + (30000 if self.cid % 11 == 7 else 0)
        if kind == 'put':
            if any(h.startswith(name + '/') or name.startswith(h + '/') for h in have):
                return
            self.put(name, content(self.cid, size), t)
            return
        old = have[i % len(have)]
        v = tree(self.src)[old]
        self.loose.add(old)
        self.fresh.add(old)
        _real['unlink'](self.src + '/' + old)
        if kind == 'again':
            self.put(old, content(self.cid, size), t)
        elif kind == 'move':
            # a file that is moved keeps its time
            if not any(h != old and (h == name or h.startswith(name + '/') or name.startswith(h + '/')) for h in have) \
                    and not (old.startswith(name + '/') or name.startswith(old + '/')):
                self.put(name, v[0], v[1])

    def put(self, name, data, t):
        p = self.src + '/' + name
        if os.path.isdir(p):
            d = p
            while os.path.isdir(d) and not os.listdir(d) and d != self.src:
                _real['rmdir'](d)
                d = d + '.'
            if os.path.isdir(p):
                return
        self.loose.add(name)
        self.fresh.add(name)
        write_file(p, data, t)

    def serve(self, uri, req):
        # the server is no part of the process whose request it answers
        saved, self.sim.proc = self.sim.proc, None
        try:
            return self.respond(uri)
        finally:
            self.sim.proc = saved

    def respond(self, uri):
        if self.late is not None:
            self.late[0] -= 1
            if self.late[0] == 0:
                for e in self.late[1]:
                    self.edit(e)
                self.sim.probe('changed_while_fetched')
        p = None
        route = self.plan['route']
        if uri == {'site': HOST, 'base': BASE}.get(route, '-') + '/.well-known/resourcesync':
            p = self.pub + '/description.xml'
        elif uri == self.at + '/resourcelist.xml':
            p = '%s/s%d.xml' % (self.snap, self.current)
        elif uri.startswith(BASE + '/'):
            p = self.src + uri[len(BASE):]
        elif uri.startswith(HOST + '/lists/'):
            p = self.pub + uri[len(HOST) + 6:]
        elif uri.startswith(HOST + '/snap/'):
            p = self.snap + uri[len(HOST) + 5:]
        if p is None or not os.path.isfile(p):
            return None
        return Response(200, read_file(p), [('Content-Type', 'application/octet-stream')], tag=('file', uri))

    def build(self, op, a, late=None, **kw):
        maps = ['%s=%s' % (BASE, self.src), '%s/lists=%s' % (HOST, self.pub), '%s/snap=%s' % (HOST, self.snap)]
        if self.plan['inside']:
            del maps[1]
        for h in self.plan['hashes']:
            a += ['--hash', h]
        for x in LISTS_EX:
            a += ['--exclude=' + x]
        a += ['--paths', self.src]
        if self.plan['limit']:
            a += ['--max-sitemap-entries', str(self.plan['limit'])]
        n = [0]

        def hook(sim, what, detail):
            n[0] += 1
            if n[0] == late[0]:
                for e in late[1]:
                    self.edit(e)
                sim.probe('changed_while_listed')
        if late:
            self.sim.on_point = hook
        self.sim.op = op
        try:
            return self.w.cli(op, 'resync-build', a + maps, **kw)
        finally:
            self.sim.on_point = None

    def publish(self, eds, f, late):
        for e in eds:
            self.edit(e)
        self.sim.advance(0.05)
        kw = {}
        if f.get('fs'):
            kw['fs_cfg'] = dict(f['fs'])
        self.k += 1
        k = self.k
        self.fresh = set()
        before = self.files()
        # the snapshot becomes public when it is complete
        at = self.at
        up = ['--capabilitylist-link', at + '/caps.xml'] if self.plan['links'] else []
        snap = '%s/s%d.xml' % (self.snap, k)
        self.job('snap%d' % k, ['--write-resourcelist', '--outfile', snap] + up, kw, f.get('crash'), 0, late)
        self.want = before
        self.loose = self.fresh
        self.whole = False
        self.current = k
        # and the changes since the one before as well
        jobs = []
        if k > 1:
            a = ['--write-changelist', '--reference', '%s/s%d.xml' % (self.snap, k - 1), '--outfile', self.pub + '/changelist.xml']
            if self.plan['new'] or late:
                a += ['--newreference', snap]
            jobs.append(a + up)
        else:
            jobs.append(['--write-changelist', '--empty', '--outfile', self.pub + '/changelist.xml'] + up)
            if self.plan['route'] != 'list':
                jobs.append(['--write-capabilitylist', 'changelist=%s/changelist.xml,resourcelist=%s/resourcelist.xml' % (at, at),
                             '--outfile', self.pub + '/caps.xml', '--sourcedescription-link', HOST + '/.well-known/resourcesync'])
            if self.plan['route'] in ('site', 'base'):
                jobs.append(['--write-sourcedescription', at + '/caps.xml', '--outfile', self.pub + '/description.xml'])
        for j, a in enumerate(jobs):
            self.sim.advance(0.02)
            self.job('pub%d-%d' % (k, j), a, kw, f.get('crash'), j + 1, None)
        self.whole = True

    def job(self, op, a, kw, crash, j, late):
        """Write one list, again if anything went wrong."""
        kw = dict(kw)
        if crash and int(crash[0] * 24) // 8 == j:
            kw.update(crash_at=1 + int(crash[0] * 24) % 8, crash_mode=crash[1])
        r = self.build(op, list(a), late, **kw)
        if not good(r):
            if not kw:
                raise Violation('publish: %s failed with %s (%s)' % (a[0], r.brief(), r.where))
            self.sim.probe('publishing_interrupted')
            if self.plan['limit'] is None and self.cid % 2 and self.current:
                # what is there is old, new or cannot be read
                self.sync('incremental' if self.cid % 4 == 1 else 'baseline', dict(self.plan['last'], driver='cli'), {}, None)
            self.sim.advance(0.3)
            r = self.build(op + 'again', list(a))
            if not good(r):
                raise Violation('publish: %s failed with %s (%s)' % (a[0], r.brief(), r.where))

    # -- the client ------------------------------------------------------

    def sync(self, mode, o, f, late, final=False):
        w = self.w
        self.n += 1
        op = '%s%d' % (mode, self.n)
        self.sim.advance(0.1)
        self.late = [late[0], late[1]] if late else None
        dry = mode == 'dryrun'
        if dry:
            mode = 'incremental' if self.n % 2 else 'baseline'
        extra = {}
        at = self.at
        if self.plan['route'] == 'list' and not self.plan['inside']:
            extra['sitemap'] = at + '/resourcelist.xml'
        if self.plan['route'] == 'caps':
            extra['caplist'] = at + '/caps.xml'
        if mode == 'incremental' and not self.plan['inside']:
            extra['changelist'] = at + '/changelist.xml'
        self.conf = {'maps': [[BASE, 'dst']], 'driver': o['driver']}
        self.world = w
        o = dict(o, dryrun=dry, reldst=self.plan['reldst'], **extra)
        if self.plan['token']:
            o['token'] = 'tok'
        before = tree(self.dst)
        nf = len(self.sim.fault_log)
        self.sim.op = op
        r = model.sync(self, op, mode, o, **model.run_args(f, 4))
        self.late = None
        self.sim.op = op + 'check'
        after = tree(self.dst)
        if w.tree_other() != self.other:
            raise Violation('bystander: a file that has nothing to do with the sync was changed')
        if mode == 'audit' or dry:
            if after != before:
                raise Violation('dry: files were changed: %s' % diff_trees(before, after))
            return r
        faults = self.sim.fault_log[nf:]
        failed = not good(r) or r.has('Failed to GET') or r.has('Not storing') or r.has('does not match') or r.has('mismatch')
        covered = mode == 'baseline' or self.client is not None and self.client >= self.current - 1
        if failed:
            if self.client is not None:
                # what was being done again is to be repaired with the same list
                self.client = min(self.client, self.current - 1)
            if not faults and not f and self.whole and not self.loose and (final or covered) and not self.excused(r, mode):
                raise Violation('failed: without any fault the %s sync ended with %s %s (%s)'
                                % (mode, r.brief(), r.stderr[-300:], r.where))
            return r
        if not self.whole:
            return r
        if not covered:
            self.sim.probe('not_covered')
            self.client = None
            return r
        self.check(mode, after)
        self.client = self.current
        if mode == 'incremental':
            self.sim.probe('followed')
            w.nontrivial = True
        return r

    def excused(self, r, mode):
        text = r.stderr + (r.msg or '')
        if mode == 'incremental' and 'No stored timestamp' in text and not self.tracked_now():
            return True
        return mode == 'baseline' and not self.want and 'no resources to sync' in text

    def tracked_now(self):
        return os.path.exists(self.w.cwd + '/.resync-client-status.cfg')

    def check(self, mode, after):
        got = {r: v for r, v in after.items() if v is not None}
        for n, v in sorted(self.want.items()):
            if n in self.loose:
                continue
            g = got.get(n)
            if g is None:
                raise Violation('lost: %s is missing after a %s sync that completed' % (n, mode))
            if g[0] != v[0]:
                raise Violation('lost: %s is not as published after a %s sync that completed' % (n, mode))
            # (an interrupted download may have left a time that is less than a second off, which counts as the same)
            if abs(g[1] - v[1]) >= 1.0:
                raise Violation('time: that of %s is %s instead of %s after a %s sync' % (n, g[1], v[1], mode))
        for n in sorted(got):
            if n not in self.want and n not in self.loose:
                raise Violation('lost: %s was deleted at the source but is there after a %s sync that completed' % (n, mode))


def execute(world, plan):
    c = Run(world, plan)
    world.tree_other = lambda: tree(world.p('other'))
    c.other = world.tree_other()
    for e in plan['start']:
        c.edit(e)
    for s in plan['steps']:
        if s[0] == 'publish':
            c.publish(*s[1:])
        elif c.k:
            c.sync(*s[1:])
    # all calms down
    c.publish([], {}, None)
    if c.client is None or c.client < c.current - 1 or not c.tracked_now():
        r = c.sync('baseline', plan['last'], {}, None, True)
    else:
        r = c.sync('incremental', plan['last'], {}, None, True)
    if c.want and c.client != c.current and not c.excused(r, 'incremental'):
        raise Violation('stuck: after all faults the destination does not follow: %s' % r.brief())
    if c.want:
        r = c.sync('audit', plan['last'], {}, None, True)
        if not good(r) or not any('IN SYNC' in m and 'NOT IN SYNC' not in m for m in r.statuses()):
            raise Violation('audit: after all faults an audit says %s %s' % (r.brief(), r.statuses()))
