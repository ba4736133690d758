"""C08: a sync stays inside its mapped directories and within the authority."""

import os
import re

from sim import model
from sim.core import Violation
from sim.fs import write_file
from sim.model import Site, diff_trees, full_tree, sync
from sim.net import Response
from sim.source import content, doc, iso

BUDGET = {'quick': {'runs': 6400, 'wall': 120}, 'thorough': {'runs': 250000, 'wall': 1500}}
RULE = ('one run lets a client with one to three mappings sync against a hostile source, whose lists, indexes, '
        'capability lists and change lists contain URIs made to leave the mapped directories or the authority; '
        'non-trivial if a list that was read contains such a URI')
LISTS = ('steps',)
REAL = ('resync.client, mapper, url_authority, resource_list_builder, resource_list, change_list, list_base*, sitemap, '
        'client_state, url_or_file_open, resync-sync, urllib, http.client')
STUBS = ('TCP connections, HTTP server, clock; the file-system seam refuses and reports every change outside the scratch '
         'directory')
ASSUMPTIONS = ('there are no symbolic links in the destination',
               'the authority of a list that is found by default is that of the documented default location at the base '
               'of the first mapping; URIs whose authority depends on reading "..", case, user names, default ports or '
               'encodings in URIs are judged for containment only')
STATE = '.resync-client-status.cfg'

# {b} base of a mapping, {n} a name, {R} the scratch directory, {h} host, {u} parent of the base
INSIDE = ['{b}/{n}'] * 3
ESCAPES = ['{b}/../{n}', '{b}/../../{n}', '{b}/../../../../../../../../{R}/other/keep', '{b}/a/../../{n}',
           '{b}/..', '{b}/../', '{b}/a/..', '{b}/a/../..', '{b}/./{n}', '{b}/.', '{b}//{R}/other/keep', '{b}/{R}/other/keep',
           '{b}///{n}', '{b}/%2e%2e/{n}', '{b}/..%2f{n}', '{b}/..\\{n}', '{b}/...', '{b}/.../{n}', '{b}/..\n', '{b}\n/../{n}',
           '{b}/a\n/../../{n}', '{b}/..;x/{n}', '{b}/~/{n}', '{b}/', '{b}', '{b}/{n}/', '{b}/../d0x/keep',
           '{b}/../../cwd/' + STATE, '{b}/ /{n}', '{b}/' + 'n' * 300, '{b}/\u00fc', '{b}/$HOME', '{b}/{n}\t',
           '{b}/x/../../d-b/{n}', '{b}x/../{n}', '{b}.{n}', '{b}?/../{n}', '{b}#/../{n}', '{b}/..?x', '{b}/?/../../{n}']
FOREIGN = ['http://evil.org/{n}', 'http://evil.org/base/{n}', 'http://{h}.evil.org/{n}', 'http://evil{h}/{n}',
           'https://{h}/base/{n}', 'http://{h}:81/{n}', 'ftp://{h}/{n}', 'http://evil.org/{h}/{n}',
           'http://z{h}/{n}', 'http://z{h}/base/{n}', 'http://z-{h}/{n}', 'http://zz.org/{n}', 'http://z{h}.zz.org/{n}',
           'http://org/{n}', 'http://evil.org/?.{h}/{n}', 'http://evil.org#.{h}', 'file://{R}/other/keep',
           '{R}/other/keep', '../other/keep', 'other/keep', '/etc/hostname', 'file:///etc/hostname', '{n}', '.', '..',
           '//{h}/base/{n}', 'http:/{h}/{n}', 'http:///{n}', 'data:text/plain,x', 'HTTP://{h}/{n}', '/', 'x:y']
SIBLINGS = ['{u}/{n}', '{u}/other/{n}', '{b}x/{n}', '{b}-b/{n}', 'http://sub.{h}/{n}', 'http://sub.{h}/base/{n}',
            'http://{h}/{n}', 'http://{h}', 'http://a.b.{h}/z/{n}', '{u}/basement/{n}', 'http://u@{h}/base/{n}',
            'http://sub.{h}:81/{n}', 'http://{H}/base/{n}', 'http://{h}:80/base/{n}']
N = ['a', 'b', 'keep', 'd/a', 'keep.me', 'x']


def gen_uri(rng):
    r = rng.random()
    t = rng.choice(INSIDE if r < 0.4 else ESCAPES if r < 0.7 else FOREIGN if r < 0.85 else SIBLINGS)
    return [t, rng.randrange(3), rng.choice(N)]


MAPS = [
    [['http://example.org/base', 'dst/d0']],
    [['http://example.org/base', 'dst/d0']],
    [['http://example.org', 'dst/d0']],
    [['http://example.org:81/base/x', 'dst/d0']],
    [['http://example.org/base', 'dst/p.q'], ['http://example.org/base2', 'dst/p.q2']],
    [['http://example.org/base/one', 'dst/d'], ['http://example.org/base/one-b', 'dst/d-b']],
    [['http://example.org/base', 'dst/deep/er'], ['http://sub.example.org/base', 'dst/y'], ['http://evil.org', 'dst/z']],
    [['http://example.org/base', 'dst/d0'], ['http://zexample.org', 'dst/d1'], ['http://zz.org', 'dst/d2']],
    [['http://sub.example.org/base', 'dst/d0'], ['http://zsub.example.org/base', 'dst/d1'],
     ['http://zz.org', 'dst/d2'], ['http://z-sub.example.org', 'dst/d3']],
    [['http://example.org/base', 'dst/d0'], ['https://example.org/base', 'dst/d1']],
]


def plan(rng, tier):
    maps = rng.choice(MAPS)
    auto = rng.random() < 0.1
    if auto:
        maps = [['http://example.org/base', 'cwd/example.org_base']]
    conf = {'maps': maps, 'driver': rng.choice(['api', 'cli']), 'slash': rng.random() < 0.2, 'auto': auto,
            'twoargs': rng.random() < 0.3}
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        mode = rng.choice(['baseline', 'baseline', 'incremental', 'audit'])
        o = {'delete': rng.random() < 0.7, 'noauth': rng.random() < 0.4, 'strict': rng.random() < 0.4,
             'ignore': rng.random() < 0.5, 'tries': 2, 'timeout': 5, 'dryrun': rng.random() < 0.05}
        n = rng.choice([1, 2, 3, 5])
        es = []
        for _ in range(n):
            es.append([gen_uri(rng), rng.choice(['created', 'updated', 'updated', 'deleted']), rng.randrange(50)])
        if rng.random() < 0.2:
            # nothing at all to object to, or one such thing among harmless ones
            es = [[[rng.choice(INSIDE + ['http://sub.{h}/base/{n}', '{b}/d/e/{n}']), rng.randrange(3), rng.choice(N)],
                   e[1], e[2]] for e in es]
            if rng.random() < 0.5:
                es.append([gen_uri(rng), 'created', 1])
        where = rng.choice(['rl', 'rl', 'rl', 'sm', 'caps', 'wk', 'explicit', 'explicit', 'local', 'sub', 'up'])
        if mode == 'incremental' and rng.random() < 0.3:
            # the default change list of a source whose resource list is given
            where = 'rl'
            o['rlist'] = rng.choice(['{h}/resourcelist.xml', '{h}/resourcelist.xml', '{b}/lists/rl.xml', '{d}/rl.xml', 'http://sub.{n}/rl.xml'])
        steps.append([mode, o, where, rng.choice([0, 0, 0, 1, 2]), es,
                      gen_uri(rng) if rng.random() < 0.1 else None, model.gen_faults(rng) if rng.random() < 0.15 else None,
                      rng.choice([0, 0, 1, 2, 3])])
    return {'conf': conf, 'steps': steps, 'start': rng.random() < 0.6}


def build(world, maps, spec):
    t, m, n = spec
    b = maps[m % len(maps)][0]
    h = b.split('://')[1].split('/')[0]
    u = b.rsplit('/', 1)[0] if b.count('/') > 2 else b
    return t.format(b=b, n=n, h=h, H=h.upper(), u=u, R=world.root)


CLEAN = re.compile(r'^(http|https|ftp)://([a-z0-9.-]+)(:\d+)?((?:/[A-Za-z0-9_.-]*)*)$')


def authority(master, uri, strict):
    """True: within the authority of master, False: outside, None: unclear."""
    ms = re.match(r'^([a-z]+)://([a-z0-9.-]+)(:\d+)?(/.*)?$', master)
    if ms is None:
        # a local list has authority over nothing on the web
        if re.match(r'^(http|https|ftp)://[a-z]', uri):
            return False
        return None
    u = re.match(r'^([a-zA-Z]+)://([^/?#]*)([/?#].*)?$', uri, re.S)
    if u is None:
        return False if re.match(r'^[^a-zA-Z]|^[a-zA-Z./]*$', uri) and not uri.startswith('//') else None
    if u.group(1).lower() != ms.group(1):
        return False
    h = re.match(r'^([a-z0-9.-]+)(:\d+)?$', u.group(2))
    if h is None:
        return None
    host, port = h.group(1), h.group(2) or ''
    mhost, mport = ms.group(2), ms.group(3) or ''
    if host != mhost and not host.endswith('.' + mhost):
        return False
    if (port or ':80') != (mport or ':80'):
        return False
    if port != mport:
        return None
    path = u.group(3) or ''
    clean = CLEAN.match(uri) and not any(s in ('.', '..', '') for s in path.split('/')[1:])
    if not clean:
        return None
    if strict:
        d = (ms.group(4) or '/').rsplit('/', 1)[0]
        return path.startswith(d + '/')
    return True


def execute(world, plan):
    conf = dict(plan['conf'])
    site = Site(world, conf)
    maps = site.conf['maps']
    world.dirs['dst'] = world.p('dst')
    if conf.get('auto'):
        conf['maps'] = maps
    now = world.sim.now
    model.bystanders(site)
    write_file(world.p('home/.profile'), b'profile', now - 9e4)
    base = maps[0][0]
    if plan['start']:
        for i, n in enumerate(N[:4]):
            for m in range(len(maps)):
                write_file(world.p(maps[m][1], n), content(500 + i, 20 + m), now - 7e4)
        write_file(world.p('cwd', STATE), b'[http___example_org_base_resourcelist_xml]\nx = 1\n', now - 1e4)
    site.server.hook = hook(site)
    for k, step in enumerate(plan['steps']):
        one(world, site, 'sync%d' % k, *step)


def hook(site):
    def f(uri, req):
        if uri in site.server.docs:
            return None
        if uri.endswith(('.xml', '/resourcesync')) or '/.well-known' in uri:
            return None
        return Response(200, content(3000 + len(uri), 30), [], tag=('any', uri))
    return f


def one(world, site, op, mode, o, where, parts, es, part_uri, faults, have=0):
    sim = world.sim
    maps = site.conf['maps']
    base = maps[0][0]
    host = base.split('://')[0] + '://' + base.split('://')[1].split('/')[0]
    docs = site.server.docs
    docs.clear()
    sim.advance(50)
    o = dict(o)
    entries = []
    times = []
    for i, (spec, change, k) in enumerate(es):
        uri = build(world, maps, spec)
        if uri in [e['uri'] for e in entries]:
            continue
        e = {'uri': uri, 'lastmod': iso(sim.now - 1000 - k)}
        times.append(sim.now - 1000 - k)
        if mode == 'incremental':
            e['change'] = change
            e['datetime'] = iso(sim.now - 20 + i)
        entries.append(e)
    uris = [e['uri'] for e in entries]
    d = {'rl': base, 'sm': base, 'caps': base, 'wk': base, 'explicit': base + '/lists', 'local': world.p('lists'),
         'sub': 'http://sub.' + host.split('://')[1], 'up': host}[where]
    if mode == 'incremental':
        cap, lu = 'changelist', d + '/changelist.xml'
        masters = [lu]
        if where in ('rl', 'sm', 'caps', 'wk'):
            if o.get('rlist'):
                o['sitemap'] = o.pop('rlist').format(h=host, b=base, d=base.rsplit('/', 1)[0] if base.count('/') > 2 else base,
                                                     n=host.split('://')[1])
                masters.append(o['sitemap'])
            else:
                masters.append(base + '/resourcelist.xml')
        else:
            o['changelist'] = lu
        o['from'] = iso(sim.now - 500)
    else:
        cap, lu = 'resourcelist', d + {'sm': '/sitemap.xml', 'caps': '/rs/list.xml'}.get(where, '/resourcelist.xml')
        masters = [lu]
        if where in ('rl', 'sm', 'caps', 'wk'):
            masters.append(base + '/resourcelist.xml')
        if where in ('explicit', 'local', 'sub', 'up'):
            o['sitemap'] = lu
        if where in ('caps', 'wk'):
            docs[base + '/rs/caps.xml'] = doc('capabilitylist', [{'uri': lu, 'capability': 'resourcelist'}])
        if where == 'caps':
            o['caplist'] = base + '/rs/caps.xml'
        if where == 'wk':
            docs[base + '/.well-known/resourcesync'] = doc(
                'description', [{'uri': base + '/rs/caps.xml', 'capability': 'capabilitylist'}])
    plain = part_uri is None
    if parts:
        index = []
        for n, i in enumerate(range(0, len(entries), parts)):
            pu = lu[:-4] + '%05d.xml' % n
            docs[pu] = doc(cap, entries[i:i + parts])
            index.append({'uri': pu})
        if part_uri:
            index.append({'uri': build(world, maps, part_uri)})
        docs[lu] = doc(cap, index, index=True)
    else:
        plain = True
        docs[lu] = doc(cap, entries)
    if where == 'local':
        for u, b in list(docs.items()):
            if u.startswith('/'):
                write_file(u, b, sim.now - 10)
    if have and mode != 'incremental':
        # some of what is listed is there already
        for i, u in enumerate(uris):
            if (have == 3 or i % 2 == have - 1) and site.path(u) and CLEAN.match(u) and not clash(world, site, [u]) and not any(
                    x in ('', '.', '..') for x in u.split('://')[1].split('/')) and len(u) < 200:
                write_file(site.path(u), content(3000 + len(u), 30), times[i])
                sim.probe('in_sync_already')
    pre = full_tree(world)
    kw = model.run_args(faults, 10) if faults else {}
    o.pop('driver', None)
    r = sync_auto(site, op, mode, o, **kw)
    post = full_tree(world)
    # containment
    dirs = [world.p(dd) for (s, dd) in maps]
    state = world.p('cwd', STATE)
    esc = [e for e in sim.escapes]
    if esc:
        raise Violation('outside: %s of %s' % esc[0])
    for kind, path in r.effects:
        if any(path.startswith(dd + '/') for dd in dirs) or path.startswith(state):
            continue
        if kind == 'mkdir' and any((dd + '/').startswith(path + '/') for dd in dirs):
            continue
        if path.startswith(world.p('tmp') + '/'):
            continue
        raise Violation('outside: %s of %s' % (kind, path.replace(world.root, '$R')))
    rel = [dd[len(world.root) + 1:] for dd in dirs]
    for p in set(pre) | set(post):
        if pre.get(p, ()) != post.get(p, ()):
            if any((p + '/').startswith(x + '/') for x in rel) or p.startswith('cwd/' + STATE):
                continue
            if p.endswith('/') and any((x + '/').startswith(p) for x in rel):
                continue
            raise Violation('outside: %s' % diff_trees({p: pre[p]} if p in pre else {},
                                                       {p: post[p]} if p in post else {})[0])
    # authority
    strict = bool(o.get('strict'))
    judged = [[authority(m, u, strict) for m in masters] for u in uris]
    out = [u for u, j in zip(uris, judged) if all(x is False for x in j)]
    if any(True not in j for j in judged) or not plain:
        world.nontrivial = True
    if out:
        sim.probe('outside_authority')
    if out and not o.get('noauth'):
        dt = [x for x in diff_trees(pre, post, 10 ** 6)]
        if dt:
            raise Violation('authority: the list %s mentions %s but the sync went on: %s' % (lu, out[0], dt[0]))
        if r.ok and mode == 'baseline' and any(not exists(world, site, u) for u in out) and plain:
            raise Violation('authority: the list %s mentions %s but the sync reports success' % (lu, out[0]))
    # a default change list or the resource list of the source, either is enough
    inside = all((any if mode == 'incremental' else all)(x is True for x in j) for j in judged)
    mapped = all(site.path(u) and re.match(r'^http://[A-Za-z0-9_.:/-]*\Z', u) and len(u) < 200
                 and not any(x in ('', '.', '..') for x in u.split('://')[1].split('/')) for u in uris)
    if plain and not faults and mapped and not clash(world, site, uris):
        if inside or o.get('noauth'):
            sim.probe('inside')
            if not r.ok:
                raise Violation('refused: a list that mentions only %s was refused: %s' % (uris, r.brief()))
    if not r.ok:
        sim.probe('failed')


def exists(world, site, u):
    p = site.path(u)
    return p is not None and os.path.lexists(p)


def clash(world, site, uris):
    """True if a name that is needed as a directory is (or is to be) a file, or the other way round."""
    ps = [site.path(u) for u in uris]
    dirs = [world.p(d) for (s, d) in site.conf['maps']]
    for p in ps:
        if os.path.isdir(p):
            return True
        q = os.path.dirname(p)
        while q not in dirs and len(q) > len(world.root):
            if os.path.isfile(q) or q in ps:
                return True
            q = os.path.dirname(q)
    return len(set(ps)) != len(ps)


def sync_auto(site, op, mode, o, **kw):
    if not site.conf.get('auto'):
        return sync(site, op, mode, o, **kw)
    w = site.world
    if site.conf['driver'] == 'cli':
        a = model.cli_args(site, mode, o)
        return w.cli(op, 'resync-sync', a[:-1 if '=' in a[-1] else -2] + [site.conf['maps'][0][0]], **kw)

    def fn():
        c = model.client(site, o)
        c.set_mappings([site.conf['maps'][0][0]])
        if mode == 'incremental':
            return c.incremental(allow_deletion=bool(o.get('delete')), change_list_uri=o.get('changelist'),
                                 from_datetime=o.get('from'))
        return c.baseline_or_audit(allow_deletion=bool(o.get('delete')), audit_only=(mode == 'audit'))
    return w.run(op, fn, **kw)
