"""C07: only timeouts are retried, only complete downloads are counted."""

from sim import model
from sim.core import Violation
from sim.model import Site, parse_status, sync
from sim.net import FAIL_KINDS, TIMEOUT_KINDS
from sim.fs import write_file

BUDGET = {'quick': {'runs': 5200, 'wall': 120}, 'thorough': {'runs': 200000, 'wall': 1500}}
RULE = ('one run is a baseline or incremental sync (or several) in which each resource has its own host and its own '
        'sequence of connection outcomes, with disk faults and obstacles; non-trivial if a download did not succeed '
        'at once')
LISTS = ('syncs',)
REAL = ('resync.client, url_or_file_open, resource_list, change_list, mapper, resync-sync, urllib, http.client, '
        'shutil')
STUBS = 'TCP connections, HTTP server, clock, faults of the file system; documents come from a writer of the check'
ASSUMPTIONS = ('the transfer of a body without any length information that is closed early cannot be told from a '
               'complete one, and is not generated',
               'a server that sends a little now and then for ever is not a timeout',
               'documents (lists) are always delivered here; their failures are decided by C03')
# URIs that are not ASCII
ODD = ['/caf\u00e9/f', '/\u65e5\u672c', '/a/\u00fc.txt']
DISK = ['openw', 'write', 'close', 'unlink']


def plan(rng, tier):
    syncs = []
    n = rng.choice([1, 2, 3, 4, 6])
    m = rng.choice([1, 1, 2])
    for k in range(m):
        timeout = rng.choice([None, 1, 5, 30, 0.5])
        driver = rng.choice(['api', 'cli']) if timeout != 0.5 else 'api'
        res = []
        for i in range(n):
            seq = []
            r = rng.random()
            tk = ['ctimeout'] if timeout is None else list(TIMEOUT_KINDS)
            if r < 0.35:
                pass
            elif r < 0.6:
                seq = [spec(rng, rng.choice(tk)) for _ in range(rng.choice([1, 1, 2, 3, 5, 9]))]
                if rng.random() < 0.4:
                    seq.append(spec(rng, rng.choice(FAIL_KINDS)))
            elif r < 0.85:
                seq = [spec(rng, rng.choice(FAIL_KINDS))]
            else:
                seq = [spec(rng, rng.choice(['slow', 'dribble', 'redirect']))]
            res.append({'seq': seq, 'size': rng.choice([1, 2, 100, 5000, 8192, 20000, 70000]),
                        'what': rng.choice(['put', 'put', 'put', 'same', 'del', 'block' if k == m - 1 and rng.random() < 0.3 else
                                            'odd' if k == m - 1 and rng.random() < 0.4 else 'put'])})
        o = {'tries': rng.choice([None, 1, 1, 2, 3, 5]), 'timeout': timeout, 'ignore': rng.random() < 0.6,
             'delete': True, 'driver': driver, 'hashes': rng.choice([[], [], ['md5']])}
        o = {a: b for a, b in o.items() if b is not None}
        disk = None
        if rng.random() < 0.3:
            disk = {'p': rng.choice([0.05, 0.2]), 'only': ['dst'], 'calls': DISK, 'short': rng.random() < 0.3}
        syncs.append([rng.choice(['baseline', 'incremental']), o, res, disk])
    return {'syncs': syncs, 'n': n, 'style': rng.choice([0, 4]), 'nolen': rng.random() < 0.25}


def spec(rng, kind):
    return [kind, round(rng.random() * 0.97, 4)]


def execute(world, plan):
    sim = world.sim
    maps = [['http://example.org/base', 'dst/base']]
    for i in range(plan['n']):
        maps.append(['http://r%d.example.org' % i, 'dst/r%d' % i])
        maps.append(['http://b%d.example.org' % i, 'dst/b%d' % i])
    site = Site(world, {'maps': maps, 'route': 'rl', 'parts': 0, 'style': plan['style'], 'hashes': ['md5'],
                        'nolen': plan.get('nolen')})
    world.dirs['dst'] = world.p('dst')
    uris = ['http://r%d.example.org/sub/f%d' % (i, i) for i in range(plan['n'])]
    hosts = {'r%d.example.org' % i: uris[i] for i in range(plan['n'])}
    keep = 'http://example.org/base/keep'
    site.put(keep, 1, 10, 1.2e9)
    for u in uris:
        site.put(u, 2, 50, 1.3e9)
    site.publish()
    r = sync(site, 'first', 'baseline', {'delete': True})
    if not r.ok:
        raise Violation('first: a quiet baseline ended with %s' % r.brief())
    for k, (mode, o, res, disk) in enumerate(plan['syncs']):
        one(world, site, 'sync%d' % k, mode, o, res, disk, uris, hosts, k)


def one(world, site, op, mode, o, res, disk, uris, hosts, k):
    sim = world.sim
    sim.advance(100)
    blocked = set()
    for i, u in enumerate(uris):
        what = res[i]['what']
        p = site.path(u)
        if what == 'del':
            if u in site.res:
                site.remove(u)
                site.record(u, 'deleted')
        elif what in ('put', 'block', 'odd'):
            if what == 'odd':
                # something that no request can be made for
                h = 'b%d.example.org' % i
                hosts[h] = u = 'http://%s%s' % (h, ODD[(i + res[i]['size']) % len(ODD)])
                blocked.add(u)
            elif what == 'block':
                # a file where the directory should be
                u = 'http://b%d.example.org/blk/f' % i
                hosts['b%d.example.org' % i] = u
                blocked.add(u)
                write_file(world.p('dst/b%d/blk' % i), b'in the way', 1e9)
            kind = 'updated' if u in site.res else 'created'
            site.put(u, 10 + i + 100 * k, res[i]['size'] + k, 1.4e9 + 100 * k + i + 0.5)
            site.record(u, kind)
    site.publish()
    site.publish_changes()
    seqs = {h: list(res[int(h[1:].split('.')[0])]['seq']) for h in hosts}
    follow = {}
    log = {h: [] for h in hosts}        # attempts: (time, kind)
    looping = {}

    def kind_for(host):
        if host not in hosts:
            return None
        if host in looping:
            return looping[host]
        if follow.pop(host, None):
            return None
        f = seqs[host].pop(0) if seqs[host] else None
        log[host].append((sim.now, f[0] if f else None))
        if f and f[0] == 'redirect':
            follow[host] = True
        if f and f[0] == 'redirect_loop':
            looping[host] = f
        return f
    world.net.kind_for = kind_for
    pre = site.dst_tree()
    a0, f0 = len(world.net.attempts), len(sim.fault_log)
    try:
        r = sync(site, op, mode, o, fs_cfg=disk)
    finally:
        world.net.kind_for = None
    post = site.dst_tree()
    if r.kind not in ('ok', 'error'):
        raise Violation('ended: sync ended with %s' % r.brief())
    if r.kind == 'error' and r.exc not in model.CLIENT_ERRORS:
        raise Violation('ended: sync ended with %s (%s)' % (r.brief(), r.where))
    tries, timeout = o.get('tries', 20), o.get('timeout')
    world.sim.probe('tries_%d' % tries)
    conns = [a for a in world.net.attempts[a0:] if a['host'] in hosts]
    for a in conns:
        if timeout is not None and a['timeout'] != timeout:
            raise Violation('timeout: a request for %s was made with a timeout of %s, not %s'
                            % (hosts[a['host']], a['timeout'], timeout))
    # disk faults by path
    dfault = {}
    for (t, fop, kind, detail) in sim.fault_log[f0:]:
        if '@' in kind:
            dfault.setdefault(detail.split(' ')[0], []).append((t, kind))
    # what each download came to
    good, bad, order = set(), set(), []
    for a in conns:
        u = hosts[a['host']]
        if u not in order:
            order.append(u)
    for host, u in hosts.items():
        if not log[host]:
            continue
        p = site.path(u)
        att = log[host]
        df = [t for (t, kd) in dfault.get(p, []) if not kd.endswith('unlink')]
        loops = [a for a in conns if a['host'] == host]
        if len(att) > tries:
            raise Violation('tries: %s was requested %d times, tries is %d' % (u, len(att), tries))
        if len(loops) > len(att) + 15:
            raise Violation('tries: %d connections for %s' % (len(loops), u))
        for j, (t, kind) in enumerate(att):
            last = j == len(att) - 1
            nxt = att[j + 1][0] if not last else None
            dead = [x for x in df if x >= t and (nxt is None or x < nxt)]
            if kind in TIMEOUT_KINDS and not dead:
                if last and j + 1 < tries:
                    raise Violation('retry: %s timed out (%s) at try %d of %d and was not tried again'
                                    % (u, kind, j + 1, tries))
                if last:
                    bad.add(u)
            elif kind in FAIL_KINDS or dead:
                world.nontrivial = True
                if not last:
                    raise Violation('retry: %s failed with %s and was tried again' % (u, kind or 'a disk fault'))
                bad.add(u)
            else:
                if not last:
                    raise Violation('retry: %s was complete and was requested again' % u)
                good.add(u)
        if len(att) > 1:
            world.nontrivial = True
    for u in blocked:
        if u in order:
            raise Violation('blocked: %s was requested although there is no place for it' % u)
    bad |= {u for u in blocked if r.ok or u in r.msg or any(u in m for m in r.messages(30))}
    # outcome
    want = set()
    for u, (data, ts) in site.res.items():
        v = pre.get(site.path(u))
        if model.differs(v, data, ts, (), site.nolen) or (mode == 'incremental' and u in {c['uri'] for c in site.listed_changes}):
            want.add(u)
    if mode == 'incremental':
        # from the recorded starting point on, as many as it asks for
        want &= set(order) | bad
    if o.get('ignore'):
        if not r.ok:
            raise Violation('ignored: with failures ignored the sync ended with %s' % r.brief())
        left = want - good - bad
        if left:
            raise Violation('skipped: %s was not even tried' % sorted(left)[0])
        for u in bad:
            if not any(u in m for m in r.messages(30)):
                raise Violation('silent: the failure of %s was not reported' % u)
    else:
        if bad and r.ok:
            raise Violation('silent: the sync reports success although %s failed' % sorted(bad)[0])
        if not bad and not r.ok:
            raise Violation('failed: the sync ended with %s although no download failed' % r.brief())
        if len(bad) > 1:
            raise Violation('error: the sync went on after %s failed' % sorted(bad)[0])
        if bad and list(bad)[0] not in r.msg:
            raise Violation('silent: the error does not say that %s failed: %s' % (list(bad)[0], r.msg))
        if bad and order and list(bad)[0] in order and order[-1] != list(bad)[0]:
            raise Violation('error: the sync went on after %s failed' % list(bad)[0])
        if r.ok and want - good:
            raise Violation('skipped: %s was not even tried' % sorted(want - good)[0])
    for u in good:
        data, ts = site.res[u]
        v = post.get(site.path(u))
        if v is None or v[0] != data:
            raise Violation('content: %s was delivered completely but the file has %s bytes instead of %d'
                            % (u, None if v is None else len(v[0]), len(data)))
        if mode == 'baseline' and int(v[1]) != int(ts):
            raise Violation('time: %s has time %r, listed is %r' % (u, v[1], ts))
    for m in r.messages():
        if m.startswith('Event:'):
            for u in bad:
                if repr(u) in m:
                    raise Violation('event: %s is reported as done although it failed' % u)
    if r.ok:
        st = [parse_status(m) for m in r.statuses()]
        new = {u for u in good if (site.path(u) not in pre if mode == 'baseline' else changed(site, u) == 'created')}
        gone = {p for p in pre if p not in post}
        if good or bad or gone:
            n = st[-1][1]
            dele = n.get('deleted', n.get('to delete (--delete)', 0))
            got = (n.get('created'), n.get('updated'))
            exp = (len(new), len(good) - len(new))
            if got != exp:
                raise Violation('counts: (created, updated) given as %s, but it is %s' % (got, exp))
            if 'deleted' in n and dele != len(gone):
                raise Violation('counts: deleted given as %s, but it is %s' % (dele, len(gone)))
    if timeout is not None:
        slack = r.points * sim.TICK + 0.002 * len(world.net.attempts[a0:]) + 0.5
        slack += sum(0.2 * (len(site.res[hosts[a['host']]][0]) // 137 + 10) for a in conns
                     if a['fault'] and a['fault'][0] in ('slow', 'dribble'))
        limit = len(order) * tries * timeout + slack
        if r.t1 - r.t0 > limit:
            raise Violation('time limit: the sync took %.1f s, limit is %.1f s' % (r.t1 - r.t0, limit))
        if any(k in TIMEOUT_KINDS for h in log for (t, k) in log[h]):
            sim.probe('timeouts')
    if good and bad:
        sim.probe('mixed_outcome')


def changed(site, u):
    return [c['change'] for c in site.listed_changes if c['uri'] == u][-1]
