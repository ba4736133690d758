"""C17: digests reveal damage that size and time do not show."""

import re

from sim import model
from sim.core import Violation
from sim.fs import write_file
from sim.model import Site, diff_trees, full_tree, parse_status, sync
from sim.net import Response
from sim.source import content, digest, doc, iso

BUDGET = {'quick': {'runs': 5200, 'wall': 120}, 'thorough': {'runs': 200000, 'wall': 1500}}
RULE = ('one run is a history of audits, baseline and incremental syncs of a source that supplies a different set of '
        'digests for each resource, with bytes flipped at rest, bodies corrupted in transfer, wrong digests in lists '
        'and silent changes; non-trivial if something was corrupted and digests were requested and supplied')
LISTS = ('rounds', 'res')
REAL = ('client (baseline, audit, incremental, prune_hashes, check_hashes), hashes, resource, resource_list(_builder), '
        'change_list, sitemap, resync-sync, urllib, http.client, shutil')
STUBS = 'TCP connections, HTTP server, clock, the disk and network that corrupt bytes'
ASSUMPTIONS = ('digests in lists are written in lower case as in the specification',
               'resources have a modification time in the lists')
KINDS = ['md5', 'sha-1', 'sha-256']
SIZES = [0, 1, 2, 31, 100, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 40000, 65535, 65536, 65537, 140000]


def gen_supplied(rng):
    return rng.choice([[], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-1'], ['sha-256', 'md5'], ['sha-1', 'sha-256'],
                       ['md5', 'sha-1', 'sha-256'], ['sha-256', 'sha-1', 'md5'], ['sha-512'], ['sha-512', 'md5'],
                       ['sha-256', 'sha-512']])


def plan(rng, tier):
    uniform = gen_supplied(rng) if rng.random() < 0.5 else None
    names = model.pick_names(rng, rng.choice([1, 2, 3, 5, 8]))
    res = []
    for n in names:
        res.append([rng.randrange(3), n, rng.randrange(1000), rng.choice(SIZES), model.gen_ts(rng),
                    uniform if uniform is not None else gen_supplied(rng), rng.random() < 0.85,
                    rng.choice(KINDS) if rng.random() < 0.2 else None])
    rounds = []
    for k in range(rng.choice([1, 2, 3, 4])):
        o = {'delete': rng.random() < 0.5, 'driver': rng.choice(['api', 'api', 'cli']), 'tries': 30, 'timeout': 5,
             'ignore': rng.random() < 0.5,
             'hashes': rng.choice([[], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-256'], ['sha-256', 'sha-1'],
                                   ['md5', 'sha-1', 'sha-256']]), 'checksum': rng.random() < 0.5}
        edits = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            kind = rng.choice(['rest', 'rest', 'rest', 'transit', 'transit', 'new', 'silent', 'swap', 'fix', 'supply'])
            edits.append([kind, rng.randrange(99), rng.choice(['flip', 'flip', 'first', 'last', 'zero', 'other', 'short', 'long']),
                          round(rng.random(), 5), rng.choice(SIZES), model.gen_ts(rng), gen_supplied(rng), rng.randrange(1000)])
        net = None
        if rng.random() < 0.25:
            net = {'p': rng.choice([0.1, 0.3]), 'kinds': rng.choice([['ctimeout'], ['slow', 'dribble', 'redirect'],
                                                                     ['s503', 's404'], ['trunc', 'reset_body']])}
        rounds.append([rng.choice(['baseline', 'baseline', 'audit', 'incremental']), o, edits, net,
                       rng.random() < 0.3])
    if rng.random() < 0.4:
        # several syncs with one client
        for rd in rounds:
            rd[1].update(hashes=rounds[0][1]['hashes'], ignore=rounds[0][1]['ignore'], driver='api')
            rd[4] = True
    conf = {'maps': model.gen_maps(rng), 'route': rng.choice(['rl', 'explicit', 'sm_base']), 'style': rng.choice([0, 4]),
            'parts': rng.choice([0, 0, 2]), 'rs': True}
    return {'conf': conf, 'res': res, 'rounds': rounds}


class DigestSite(Site):
    """Each resource has digests of its own, possibly wrong ones."""

    def __init__(self, world, conf):
        Site.__init__(self, world, conf)
        self.md = {}            # uri -> [supplied, length given, wrong kind]

    def stated(self, uri):
        """What lists say: (lastmod, length or None, {kind: digest})."""
        data, ts = self.res[uri]
        supplied, length, wrong = self.md[uri]
        d = {}
        for k in supplied:
            h = digest(data, k) if k in KINDS else 'ab' * 64
            if k == wrong:
                h = h[:-1] + ('0' if h[-1] != '0' else '1')
            d[k] = h
        return (ts, len(data) if length else None, d)

    def entry(self, uri, extra=None):
        ts, length, d = self.stated(uri)
        e = {'uri': uri, 'lastmod': iso(ts, self.conf.get('style', 0)), 'length': length}
        if d:
            e['hash'] = ' '.join('%s:%s' % kv for kv in d.items())
        if extra:
            e.update(extra)
        return e


def corrupt(data, how, frac):
    """Other bytes; None if that is impossible."""
    if how in ('short', 'long'):
        if how == 'long':
            return data + b'tail'
        return data[:int(frac * len(data))] if data else None
    if not data:
        return None
    i = {'first': 0, 'last': len(data) - 1}.get(how, int(frac * len(data)))
    if how == 'zero':
        new = bytes(len(data))
    elif how == 'other':
        new = content(31337, len(data))
    else:
        new = data[:i] + bytes([data[i] ^ (1 << int(frac * 8))]) + data[i + 1:]
    return new if new != data else None


def execute(world, plan):
    sim = world.sim
    site = DigestSite(world, plan['conf'])
    site.classes()
    uris = []
    for (m, name, cid, size, ts, supplied, length, wrong) in plan['res']:
        u = site.uri(m, name)
        if u in uris:
            continue
        site.put(u, cid, size, ts)
        site.md[u] = [supplied, length, wrong]
        uris.append(u)
    if not uris:
        return
    clients = {}
    for k, (mode, o, edits, net, reuse) in enumerate(plan['rounds']):
        sim.op = 'edit%d' % k
        sim.advance(1000)
        transit = {}
        changed = {}
        for (kind, sel, how, frac, size, ts, supplied, cid) in edits:
            u = uris[sel % len(uris)]
            data, old = site.res[u]
            p = site.path(u)
            if kind == 'rest':
                t = site.dst_tree().get(p)
                new = corrupt(t[0], how, frac) if t else None
                if new is not None:
                    write_file(p, new, t[1])
                    sim.fault('rest_' + how)
            elif kind == 'transit':
                new = corrupt(data, how, frac)
                if new is not None:
                    transit[u] = new
                    sim.fault('transit_' + how)
            elif kind == 'new':
                model.put_distinct(site, u, cid, size, ts)
                changed[u] = 'updated'
            elif kind == 'silent':
                new = corrupt(data, how if how not in ('short', 'long') else 'other', frac)
                if new is not None:
                    site.res[u] = (new, old)
                    site.server.files[u] = (new, old)
                    changed[u] = 'updated'
            elif kind == 'swap':
                # another resource's bytes under this name, with the size and time of this one
                v = uris[int(frac * len(uris))]
                t = site.dst_tree().get(p)
                if v != u and t and len(site.res[v][0]) == len(t[0]):
                    write_file(p, site.res[v][0], t[1])
            elif kind == 'fix':
                site.md[u][2] = None
            elif kind == 'supply':
                site.md[u] = [supplied, frac < 0.8, KINDS[cid % 3] if cid < 300 else None]
        one(world, site, 'r%d' % k, mode, dict(o), transit, changed, net, clients if reuse else None)
    if sim.escapes:
        raise Violation('outside: %s' % (sim.escapes[:3],))


def publish_changes(site, changed):
    lu = model.doc_locations(site.conf)['base'] + '/changelist.xml'
    now = site.world.sim.now
    entries = []
    for i, u in enumerate(sorted(changed)):
        e = site.entry(u, {'change': changed[u], 'datetime': iso(now - 10 + i)})
        entries.append(e)
    site.server.docs[lu] = doc('changelist', entries, md={'from': iso(now - 100)})


def shows_difference(v, st, effective):
    """True if size, time or digests in use show that the local file is not the one stated."""
    ts, length, d = st
    if length is not None and len(v[0]) != length:
        return True
    if abs(v[1] - ts) >= 1.0:
        return True
    return any(k in d and digest(v[0], k) != d[k] for k in effective)


def one(world, site, op, mode, o, transit, changed, net, clients):
    sim = world.sim
    site.publish()
    publish_changes(site, changed)
    if mode == 'incremental':
        o['from'] = iso(sim.now - 500)
        if not changed:
            changed = {}
    stated = {u: site.stated(u) for u in site.res}
    among = changed if mode == 'incremental' else stated
    listed = set()
    for u in among:
        listed |= set(stated[u][2])
    requested = set(o.get('hashes') or ())
    effective = requested & listed & set(KINDS)
    pre = site.dst_tree()
    before = full_tree(world)
    delivered = {}

    def hook(uri, req):
        if uri in site.res:
            data = transit.get(uri, site.res[uri][0])
            return Response(200, data, [('Content-Type', 'x/y')], tag=('file', uri, data))
        return None
    site.server.hook = hook
    a0 = len(world.net.attempts)
    # documents are always delivered
    docs = set(site.server.docs)
    faulty = dict(net) if net else None
    if faulty:
        cfg = faulty

        def kind_for(host):
            # only downloads, which follow the documents
            if not any(a.get('tag') and a['tag'][0] == 'doc' and a['tag'][1] in last for a in world.net.attempts[a0:]):
                return None
            return sim.choose('net', None, lambda r: [r.choice(cfg['kinds']), round(r.random() * 0.97, 3)]
                              if r.random() < cfg['p'] else None)
        lu = site.list_uri() if mode != 'incremental' else model.doc_locations(site.conf)['base'] + '/changelist.xml'
        last = [site.part_uris[-1]] if mode != 'incremental' and site.part_uris else [lu]
        world.net.kind_for = kind_for
    try:
        r = run(world, site, op, mode, o, clients)
    finally:
        world.net.kind_for = None
        site.server.hook = None
    fails = bool(net) and any(k in ('s503', 's404', 'trunc', 'reset_body') for k in net['kinds'])
    if not r.ok:
        if fails and not o['ignore'] and 'Failed to GET' in r.msg:
            pass
        elif net and 'after 30 tries' in r.msg:
            return
        else:
            raise Violation('ended: %s ended with %s (%s)' % (mode, r.brief(), r.where))
    asked = []
    for a in world.net.attempts[a0:]:
        tag = a.get('tag')
        if a['request'] and not a['follow']:
            u = 'http://%s%s' % (a['request'].host, a['request'].target)
            if u in site.res and u not in asked:
                asked.append(u)
        if tag and tag[0] == 'file' and a['complete'] and a['status'] == 200:
            delivered[tag[1]] = tag[2]
    # 1. what is fetched
    if mode == 'incremental':
        want = set(changed)
    else:
        want = {u for u in site.res if site.path(u) not in pre
                or shows_difference(pre[site.path(u)], stated[u], effective)}
        st = [parse_status(m) for m in r.statuses()]
        if st:
            new = {u for u in want if site.path(u) not in pre}
            c = st[0][1]
            got = (c.get('to create', c.get('created')), c.get('to update', c.get('updated')))
            if got != (len(new), len(want) - len(new)):
                raise Violation('found: %d resources are new and %d differ, reported is %s (digests %s)'
                                % (len(new), len(want) - len(new), st[0], sorted(effective)))
        elif r.ok:
            raise Violation('found: no status is reported')
    if mode == 'audit':
        d = diff_trees(before, full_tree(world))
        if d or asked:
            raise Violation('found: an audit changed %s and fetched %s' % (d, asked))
        want = set()
    if r.ok and set(asked) - set(delivered) and not fails:
        raise Violation('ended: not delivered: %s' % sorted(set(asked) - set(delivered)))
    if set(asked) - want or (r.ok and not net and want - set(asked)):
        raise Violation('fetched: %s; expected %s as sizes, times and digests %s show; stated is %s'
                        % (sorted(asked), sorted(want), sorted(effective),
                           {u: stated[u] for u in sorted(set(asked) ^ want)}))
    # 2. what is there afterwards
    post = site.dst_tree()
    for u, data in delivered.items():
        v = post.get(site.path(u))
        if v is None or v[0] != data:
            raise Violation('bytes: %s is not what was delivered' % u)
    # 3. what is said about it
    log = r.messages()
    for u in site.res:
        said = [m for m in log if re.search(r'mismatch|not match', m) and re.search('%s(?![^ ,])' % re.escape(u), m)]
        if u not in delivered:
            if said:
                raise Violation('log: %s was not downloaded, but: %s' % (u, said[0]))
            continue
        data = delivered[u]
        ts, length, d = stated[u]
        bad = [k for k in sorted(effective) if k in d and digest(data, k) != d[k]]
        badlen = length is not None and length != len(data)
        if (bad or badlen) and not said:
            raise Violation('log: nothing is said about %s, of which %s do not match'
                            % (u, bad + (['length'] if badlen else [])))
        if said and not (bad or badlen):
            raise Violation('log: %s was downloaded correctly, but: %s' % (u, said[0]))
        if bad or badlen:
            sim.probe('reported')
            world.nontrivial = True
    if effective and any(digest(v[0], k) != stated[u][2][k] for u in stated for k in effective if k in stated[u][2]
                         for v in [pre.get(site.path(u))] if v):
        world.nontrivial = True
        sim.probe('found')


def run(world, site, op, mode, o, clients):
    if o['driver'] == 'cli' or clients is None:
        return sync(site, op, mode, o)
    # one client object for several syncs
    key = (tuple(sorted(o['hashes'])), o['ignore'])
    first = key not in clients

    def fn():
        if first:
            oo = dict(o)
            if site.conf['route'] == 'explicit':
                oo['sitemap'] = site.list_uri()
            clients[key] = model.client(site, oo)
        c = clients[key]
        if mode == 'incremental':
            return c.incremental(allow_deletion=bool(o.get('delete')), from_datetime=o.get('from'))
        return c.baseline_or_audit(allow_deletion=bool(o.get('delete')), audit_only=(mode == 'audit'))
    if not first:
        world.sim.probe('reused_client')
    return world.run(op, fn, reset=first)


FINDINGS = {}
SCENARIOS = {}
