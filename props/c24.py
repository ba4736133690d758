"""C24: a client object gives the results of a new one, whatever was done before."""

import io
import zipfile

from sim import model
from sim.core import Violation
from sim.fs import write_file, _real
from sim.model import Site, diff_trees, full_tree

BUDGET = {'quick': {'runs': 2600, 'wall': 120}, 'thorough': {'runs': 150000, 'wall': 1500}}
RULE = ('one run is a history of operations by one to three client objects of one process (syncs of any kind, dry runs, writing '
        'and parsing of documents, changes of settings), some failing or interrupted, while the source and the copies change; it '
        'is executed twice, the second time with a new client in a new process for each operation; non-trivial if an object '
        'was used again after an operation that had done something')
LISTS = ('steps', 'start')
REAL = ('resync.client and all modules of the library it uses, urllib.request, http.client, configparser, zipfile, shutil')
STUBS = 'TCP connections, HTTP server, clock, Ctrl-C, faults of the network; source model'
ASSUMPTIONS = ('settings are made through the documented attributes and methods of the client and stay as they were set',
               'delay and access token belong to the process and not to a client (C13)')
NET = ['refuse', 'ctimeout', 'stall_head', 'close_head', 's404', 's503', 'trunc', 'reset_body', 'redirect']


def gen_settings(rng, first):
    s = {'map': rng.choice([0, 0, 1, 2, 3]), 'hashes': model.gen_hashes(rng), 'tries': rng.choice([1, 2, 3, 4]),
         'timeout': rng.choice([5, 60]), 'ignore': rng.random() < 0.4, 'noauth': rng.random() < 0.2,
         'strict': rng.random() < 0.15, 'route': rng.choice(['default', 'default', 'list', 'caps']),
         'dryrun': rng.random() < 0.15, 'multi': rng.random() < 0.9, 'verbose': rng.random() < 0.3,
         'max': rng.choice([None, None, 1, 2, 5]), 'pretty': rng.random() < 0.5,
         'exclude': rng.choice([[], [], ['.*a'], ['.*d', '.*x'], ['(']])}
    if first:
        return s
    return {k: s[k] for k in sorted(rng.sample(sorted(s), rng.choice([1, 2, 3, 5])))}


def plan(rng, tier):
    conf = model.gen_conf(rng)
    names = rng.sample(model.NAMES, rng.choice([1, 2, 3, 5]))
    cid = [0]

    def put():
        cid[0] += 1
        return ['put', rng.randrange(3), rng.choice(names), cid[0], model.pick_size(rng, 0.02), model.gen_ts(rng)]
    start = [put() for _ in names]
    n = rng.choice([1, 1, 2, 3])
    steps = []
    stalls = rng.random() < 0.2     # a source that stalls again and again
    for _ in range(rng.choice([2, 3, 4, 6, 9])):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.4:
                steps.append(put())
            elif r < 0.55:
                steps.append(['del', rng.randrange(99)])
            elif r < 0.67:
                steps.append(['local', rng.choice(model.DAMAGES), rng.randrange(99), rng.randrange(9999)])
            elif r < 0.9:
                steps.append(['conf', rng.randrange(n), gen_settings(rng, False)])
            else:
                # other digests in the lists from here on
                steps.append(['supply', model.gen_hashes(rng), rng.choice([0, 0, 1, 2, 3])])
        f = {}
        r = rng.random()
        if r < 0.15:
            f['doc'] = [rng.randrange(9), rng.choice(['gone', 'cut', 'empty', 'other', 'html'])]
        elif r < 0.3:
            f['net'] = [[rng.randrange(8), rng.choice(NET), round(rng.random() * 0.97, 3)] for _ in range(rng.choice([1, 1, 2]))]
        elif r < 0.4:
            # nothing but timeouts for some downloads
            f['slow'] = [rng.randrange(3), rng.choice([1, 1, 2, 3, 9])]
        elif r < 0.55:
            f['miss'] = [rng.randrange(99) for _ in range(rng.choice([1, 1, 2]))]
        elif r < 0.63:
            f['sigint'] = rng.randrange(1, 60)
        if stalls and rng.random() < 0.6:
            f = {'slow': [rng.randrange(2), rng.choice([1, 1, 2, 3])]}
        kind = rng.choice(['baseline', 'baseline', 'baseline', 'audit', 'incremental', 'incremental', 'parse', 'write', 'write',
                           'changes', 'dump', 'caps', 'desc'])
        a = {'delete': rng.random() < 0.6, 'out': rng.choice([None, 'a.xml', 'b.xml']), 'sel': rng.randrange(9),
             'from': rng.random() < 0.4, 'old': rng.random() < 0.3, 'links': rng.random() < 0.3}
        steps.append(['op', rng.randrange(n), kind, a, f])
    return {'conf': conf, 'start': start, 'steps': steps, 'clients': [gen_settings(rng, True) for _ in range(n)]}


class History(object):
    """One execution of the history; reuse: with the same objects all along."""

    def __init__(self, world, plan, reuse):
        self.w, self.plan, self.reuse = world, plan, reuse
        self.sim = world.sim
        self.site = Site(world, plan['conf'])
        self.site.classes()
        world.dirs['state'] = world.cwd
        model.bystanders(self.site)
        _real['makedirs'](world.p('out'), exist_ok=True)
        self.settings = [dict(s) for s in plan['clients']]
        self.objects = {}
        self.pending = {i: {} for i in range(len(self.settings))}   # changed since the object was used
        self.used = set()
        self.seen = []
        self.n = 0
        for e in plan['start']:
            self.env(e)

    def env(self, s):
        site = self.site
        if s[0] == 'put':
            uri = site.uri(s[1], s[2])
            kind = 'updated' if uri in site.res else 'created'
            model.put_distinct(site, uri, s[3], s[4], s[5])
            site.record(uri, kind)
        elif s[0] == 'del' and site.res:
            uri = sorted(site.res)[s[1] % len(site.res)]
            site.remove(uri)
            site.record(uri, 'deleted')
        elif s[0] == 'local':
            model.damage(site, s)
        elif s[0] == 'conf':
            self.settings[s[1]].update(s[2])
            self.pending[s[1]].update(s[2])
        elif s[0] == 'supply':
            site.conf['hashes'] = s[1]
            site.conf['parts'] = s[2]

    def apply(self, c, s):
        """Make settings of a client."""
        site, w = self.site, self.w
        if 'map' in s:
            maps = site.conf['maps']
            if s['map'] == 1:
                maps = [[a, 'alt/' + d] for a, d in maps]
            elif s['map'] == 2:
                maps = maps[:1]
            elif s['map'] == 3:
                maps = maps[::-1]
            c.set_mappings(['%s=%s' % (a, w.p(d)) for a, d in maps])
        for k, name in (('tries', 'tries'), ('timeout', 'timeout'), ('ignore', 'ignore_failures'), ('noauth', 'noauth'),
                        ('strict', 'strictauth'), ('dryrun', 'dryrun'), ('multi', 'allow_multifile'), ('verbose', 'verbose'),
                        ('max', 'max_sitemap_entries'), ('pretty', 'pretty_xml')):
            if k in s:
                setattr(c, name, s[k])
        if 'hashes' in s:
            c.hashes = set(s['hashes'])
        if 'exclude' in s:
            c.exclude_patterns = list(s['exclude'])
        if 'route' in s:
            c.sitemap_name = site.list_uri() if s['route'] == 'list' else None
            c.capability_list_uri = site.clu if s['route'] == 'caps' else None

    def client(self, k):
        import resync.client
        if self.reuse and k in self.objects:
            c = self.objects[k]
            self.apply(c, self.pending[k])
        else:
            c = resync.client.Client()
            self.apply(c, self.settings[k])
            self.objects[k] = c
        self.pending[k] = {}
        return c

    def op(self, k, kind, a, f):
        site, w, sim = self.site, self.w, self.sim
        self.n += 1
        op = 'op%d' % self.n
        sim.advance(1)
        site.publish()
        site.publish_changes(parts=(0, 0, 2)[a['sel'] % 3])
        base = model.doc_locations(site.conf)['base']
        lu, changes = base + '/old-changes.xml', site.changes
        site.changes = changes[:len(changes) // 2]
        site.publish_changes(uri=lu)
        site.changes = changes
        for i in f.get('miss', ()):
            if site.res:
                site.server.files.pop(sorted(site.res)[i % len(site.res)], None)
                sim.fault('resource_missing')
        if f.get('doc'):
            uris = sorted(site.server.docs)
            u = uris[f['doc'][0] % len(uris)]
            d = site.server.docs[u]
            how = f['doc'][1]
            if how == 'gone':
                del site.server.docs[u]
            else:
                site.server.docs[u] = {'cut': d[:-20], 'empty': b'', 'html': b'<html><body>no</body></html>',
                                       'other': site.server.docs[uris[-1]]}[how]
            sim.fault('doc_' + how)
        at = {i: [kd, fr] for i, kd, fr in f.get('net', ())}
        count = [0]

        def kind_for(host):
            count[0] += 1
            v = at.get(count[0] - 1)
            if v:
                sim.fault('net_' + v[0])
            return v
        slow = [0]

        def uri_fault(uri):
            if uri in site.res and f.get('slow'):
                slow[0] += 1
                if 0 < slow[0] - f['slow'][0] <= f['slow'][1]:
                    sim.fault('net_stall_head')
                    return ['stall_head', 0.5]
            return None
        kw = {}
        if f.get('sigint'):
            kw = dict(crash_at=f['sigint'], crash_mode='sigint')

        def fn():
            c = self.client(k)
            if kind in ('baseline', 'audit'):
                return c.baseline_or_audit(allow_deletion=a['delete'], audit_only=kind == 'audit')
            if kind == 'incremental':
                return c.incremental(allow_deletion=a['delete'], from_datetime='2001-01-01' if a['from'] else None,
                                     change_list_uri=lu if a['old'] else None)
            if kind == 'parse':
                return c.parse_document()
            out = w.p('out/' + a['out']) if a['out'] else None
            links = [{'rel': 'up', 'href': 'http://example.org/up'}] if a['links'] else None
            if kind == 'write':
                return c.write_resource_list(outfile=out, links=links)
            if kind == 'dump':
                return c.write_resource_list(outfile=w.p('out/dump'), links=links, dump=True)
            if kind == 'changes':
                ref = [site.list_uri(), w.p('out/a.xml'), w.p('out/b.xml')][a['sel'] % 3]
                new = w.p('out/a.xml') if a['sel'] > 5 else None
                return c.write_change_list(ref_sitemap=ref, newref_sitemap=new, outfile=out and w.p('out/ch.xml'), links=links,
                                           empty=a['sel'] == 4)
            if kind == 'caps':
                return c.write_capability_list({'resourcelist': site.list_uri()}, outfile=out and w.p('out/caps.xml'), links=links)
            return c.write_source_description([site.clu], outfile=out and w.p('out/desc.xml'), links=links)
        q0 = len(site.server.requests)
        t0 = sim.now
        w.net.kind_for, w.net.uri_fault = kind_for, uri_fault
        try:
            first = not self.seen
            r = w.run(op, fn, reset=first or not self.reuse, **kw)
        finally:
            w.net.kind_for = w.net.uri_fault = None
            site.server.files.update(site.res)
        after = full_tree(w)
        what = {'result': (r.kind, r.exc, r.msg), 'output': (r.stdout, r.stderr), 'messages': r.messages(),
                'requests': [q[1:3] for q in site.server.requests[q0:]], 'tree': contents(after), 'duration': round(sim.now - t0, 3)}
        self.seen.append((op, kind, k, what))
        if self.reuse:
            if k in self.used:
                w.nontrivial = True
                sim.probe('again_' + kind)
            if r.effects or what['requests']:
                self.used.add(k)

    def run(self):
        for s in self.plan['steps']:
            if s[0] == 'op':
                if s[1] < len(self.settings):
                    self.op(*s[1:])
            elif s[0] != 'conf' or s[1] < len(self.settings):
                self.env(s)
        return self.seen


def contents(t):
    """Tree to be compared: the times of copies count, zip files count by what is in them."""
    out = {}
    for k, v in t.items():
        if v is None or v[0] == 'symlink':
            out[k] = v
        elif k.startswith('out/') and v[0][:2] == b'PK':
            try:
                z = zipfile.ZipFile(io.BytesIO(v[0]))
                out[k] = (repr([(i.filename, z.read(i)) for i in z.infolist()]).encode(), 0)
            except Exception:
                out[k] = (b'damaged', len(v[0]))
        elif k.startswith(('dst', 'alt')):
            out[k] = v
        else:
            out[k] = (v[0], 0)
    return out


def execute(world, plan):
    sim = world.sim
    before = full_tree(world)
    t0, pid = sim.now, sim.pid
    # the second execution meets the same short reads, orders of directories, ways to answer, ... as the first
    drawn = {}
    choose = sim.choose

    def record(kind, default, fn):
        v = choose(kind, default, fn)
        drawn.setdefault((sim.op, kind), []).append(v)
        return v

    def repeat(kind, default, fn):
        old = drawn.get((sim.op, kind))
        return old.pop(0) if old else default
    try:
        sim.choose = record
        seen = History(world, plan, True).run()
        t1 = sim.now
        model.restore(world, before)
        sim.now, sim.pid = t0, pid
        sim.choose = repeat
        other = History(world, plan, False).run()
        sim.now = max(t1, sim.now)
    finally:
        del sim.choose
    for (op, kind, k, a), (_, _, _, b) in zip(seen, other):
        for what in ('result', 'requests', 'tree', 'output', 'messages', 'duration'):
            if a[what] != b[what]:
                if what == 'tree':
                    d = diff_trees(b['tree'], a['tree'])
                elif what in ('result', 'duration'):
                    d = 'it is %r, with a new client %r' % (a[what], b[what])
                else:
                    d = first_difference(a[what], b[what])
                raise Violation('%s: of %s (%s by client %d, used before) %s' % (what, op, kind, k, d))
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def first_difference(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else 'nothing'
        y = b[i] if i < len(b) else 'nothing'
        if x != y:
            return 'it is %s, with a new client %s' % (repr(x)[:300], repr(y)[:300])
    return ''
