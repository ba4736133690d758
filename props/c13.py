"""C13: web requests are paced, and carry the token exactly when there is one."""

import os

from sim import model
from sim.core import Violation
from sim.fs import write_file
from sim.model import NET_ALL, Site, sync
from sim.source import doc

BUDGET = {'quick': {'runs': 4200, 'wall': 120}, 'thorough': {'runs': 200000, 'wall': 1500}}
RULE = ('one run is a few processes (baseline, audit, incremental, parsing, exploring, change list generation) against '
        'a source with random content and random failures of connections, with and without a delay and a token; '
        'non-trivial if a process with a delay or a token made two or more web requests')
LISTS = ('steps', 'res')
REAL = ('url_or_file_open, client, client_utils, list_base(_with_index), explorer, resync-sync, resync-explorer, '
        'urllib.request, http.client')
STUBS = 'clock (time.sleep advances it), network below the socket calls, HTTP server'
ASSUMPTIONS = ('redirects that urllib follows inside one request are not paced',
               'the start of a request is the moment at which its connection is attempted')
MODES = ['baseline', 'baseline', 'audit', 'incremental', 'incremental', 'parse', 'explore', 'build']
TOKENS = ['abc', 'open sesame', 'x' * 200, 'a:b/c==', '~._-', '%41', "q'"]


def plan(rng, tier):
    conf = model.gen_conf(rng)
    res = []
    for i, n in enumerate(model.pick_names(rng, rng.choice([0, 1, 3, 6, 10]))):
        res.append([rng.randrange(3), n, rng.randrange(1000), rng.choice([0, 1, 100, 5000]), model.gen_ts(rng)])
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        mode = rng.choice(MODES)
        o = {'delete': rng.random() < 0.7, 'ignore': rng.random() < 0.6, 'tries': rng.choice([1, 2, 3, 5]),
             'timeout': rng.choice([1, 5, 30]), 'driver': rng.choice(['api', 'cli']), 'noauth': rng.random() < 0.3,
             'delay': rng.choice([None, 0.1, 0.5, 1.0, 2.5, 10.0, 60.0, 0.003, 0.04, 1.25]),
             'token': rng.choice(TOKENS) if rng.random() < 0.5 else None,
             'hashes': model.gen_hashes(rng), 'dryrun': rng.random() < 0.1, 'strict': False}
        if rng.random() < 0.15:
            o['nomulti'] = True
        net = None
        if rng.random() < 0.6:
            kinds = [k for k in NET_ALL if k != 'stall_body' and k != 'stall_head'] if rng.random() < 0.4 else \
                rng.sample(['ctimeout', 'refuse', 's404', 's503', 'reset_head', 'trunc', 'redirect', 'slow', 'redirect_loop'], 2)
            net = {'p': rng.choice([0.1, 0.3, 0.6]), 'kinds': kinds}
        steps.append([mode, o, net, rng.choice(['web', 'web', 'web', 'file', 'fileuri']), round(rng.random(), 4),
                      [[rng.randrange(3), rng.choice(model.NAMES), rng.randrange(1000), rng.choice([1, 50]), model.gen_ts(rng)]
                       for _ in range(rng.choice([0, 1, 3]))]])
    return {'conf': conf, 'res': res, 'first': rng.random() < 0.6, 'steps': steps, 'skew': rng.choice([0, 0, -3600, 1e6])}


def _put(site, r, record=True):
    m, name, cid, size, ts = r
    u = site.uri(m, name)
    if any(x.startswith(u + '/') or u.startswith(x + '/') for x in site.res):
        return
    known = u in site.res
    model.put_distinct(site, u, cid, size, ts)
    if record:
        site.record(u, 'updated' if known else 'created')


def execute(world, plan):
    sim = world.sim
    site = Site(world, plan['conf'])
    site.classes()
    for r in plan['res']:
        _put(site, r, False)
    site.publish()
    if plan['first'] and site.res:
        r = sync(site, 'first', 'baseline', {'delete': True})
        if not r.ok:
            raise Violation('first run: a quiet baseline ended with %s' % r.brief())
    for k, (mode, o, net, where, frac, edits) in enumerate(plan['steps']):
        sim.op = 'edit%d' % k
        sim.advance(100)
        for e in edits:
            _put(site, e)
        site.publish()
        site.publish_changes()
        one(world, site, 'p%d' % k, mode, dict(o), net, where, frac, plan['skew'])


def one(world, site, op, mode, o, net, where, frac, skew):
    sim = world.sim
    o = {k: v for k, v in o.items() if v is not None}
    delay, token = o.get('delay'), o.get('token')
    trace = []

    def hook(s, what, detail):
        if what in ('sleep', 'connect', 'open'):
            trace.append((what, s.now, str(detail)))
    # a list on the local disk that refers to resources on the web
    lu = site.list_uri()
    local = None
    if where != 'web' and (mode in ('baseline', 'audit', 'parse', 'explore', 'build')):
        for u in [lu] + site.part_uris:
            p = world.p('lists/' + u.rsplit('/', 1)[1])
            write_file(p, site.server.docs[u])
            if u == lu:
                local = p if where == 'file' else 'file://' + p
        if mode in ('baseline', 'audit'):
            o['sitemap'] = local
            o['noauth'] = True
    a0, q0 = len(world.net.attempts), len(site.server.requests)
    kw = {'net_cfg': dict(net) if net else None, 'skew': skew}
    sim.on_point = hook
    try:
        if mode in ('baseline', 'audit', 'incremental'):
            r = sync(site, op, mode, o, **kw)
        elif mode == 'parse':
            r = parse(world, site, op, o, local or lu, kw)
        elif mode == 'explore':
            r = explore(world, site, op, o, local or lu, frac, kw)
        else:
            r = build(world, site, op, o, local, lu, kw)
    finally:
        sim.on_point = None
    if r.kind == 'hang':
        sim.probe('blocked')
    elif r.kind == 'error' and r.exc not in model.CLIENT_ERRORS + ('ListBaseIndexError', 'SitemapIndexError', 'SitemapParseError',
                                                                   'ParseError', 'URLError', 'HTTPError', 'OSError', 'TimeoutError',
                                                                   'ConnectionResetError', 'RemoteDisconnected', 'IncompleteRead',
                                                                   'BadStatusLine', 'EOFError'):
        raise Violation('ended: %s with %s (%s)' % (mode, r.brief(), r.where))
    att = world.net.attempts[a0:]
    # requests, without the redirects followed inside one
    starts, follow = [], 0
    for a in att:
        if a['follow']:
            follow += 1
        else:
            starts.append(a)
    conn = [i for i, x in enumerate(trace) if x[0] == 'connect']
    nsleep = sum(1 for x in trace if x[0] == 'sleep')
    if delay is not None:
        for a, b in zip(starts, starts[1:]):
            if b['t'] - a['t'] < delay - 1e-6:
                raise Violation('pace: a request for %s started %.4f s after the one before, the delay is %s'
                                % (b['host'], b['t'] - a['t'], delay))
        # sleeping is for the web request that follows
        for i, x in enumerate(trace):
            if x[0] == 'sleep':
                nxt = trace[i + 1][0] if i + 1 < len(trace) else 'end'
                if nxt != 'connect':
                    raise Violation('local: a delay of %s was followed by %s, not by a web request' % (x[2], nxt))
        if starts and trace[conn[0] - 1:conn[0]] and trace[conn[0] - 1][0] == 'sleep':
            raise Violation('first: the first web request was delayed')
        if nsleep > max(0, len(starts) - 1):
            raise Violation('first: %d delays for %d requests' % (nsleep, len(starts)))
    else:
        if nsleep:
            raise Violation('delay: there was a delay although none is set')
    for a in att:
        req = a['request']
        if req is None:
            continue
        auth = [v for (k, v) in req.headers if k.lower() == 'authorization']
        if token is None:
            if auth:
                raise Violation('token: a request for %s%s carried %r, there is no token' % (req.host, req.target, auth))
        elif auth != ['Bearer ' + token]:
            raise Violation('token: a request for %s%s carried %r instead of the token' % (req.host, req.target, auth))
    if (delay is not None or token is not None) and len(starts) > 1:
        world.nontrivial = True
    if delay is not None and len(starts) > 1:
        sim.probe('paced %s' % mode)
    if token is not None and starts:
        sim.probe('token %s' % mode)
    if follow:
        sim.probe('redirects')


def misc(o):
    a = []
    if o.get('delay') is not None:
        a += ['--delay', repr(o['delay'])]
    if o.get('token') is not None:
        a += ['--access-token', o['token']]
    return a


def parse(world, site, op, o, uri, kw):
    if o.get('driver') == 'cli':
        return world.cli(op, 'resync-sync', ['--parse', '--sitemap', uri, '--verbose'] + misc(o), **kw)

    def fn():
        o2 = dict(o, sitemap=uri)
        model.client(site, o2).parse_document()
    return world.run(op, fn, **kw)


def explore(world, site, op, o, uri, frac, kw):
    n = [0]

    def answer(prompt=''):
        n[0] += 1
        return ['1', '2', 'b', '1', '1', 'x', 'b', '3', '1', 'u', 'i', '2', 'b', 'q'][min(int(frac * 14) + n[0], 13)]
    if o.get('driver') == 'cli':
        return world.cli(op, 'resync-explorer', ['--sitemap', uri] + misc(o), stdin=answer, **kw)
    import builtins

    def fn():
        from resync.explorer import Explorer
        from resync.url_or_file_open import set_url_or_file_open_config
        for k, v in (('delay', o.get('delay')), ('bearer_token', o.get('token'))):
            if v is not None:
                set_url_or_file_open_config(k, v)
        c = Explorer()
        c.sitemap_name = uri
        saved = builtins.input
        builtins.input = answer
        try:
            c.explore()
        finally:
            builtins.input = saved
    return world.run(op, fn, **kw)


def build(world, site, op, o, local, lu, kw):
    """Change list between two lists, or a list and the local files."""
    def fn():
        c = model.client(site, {k: v for k, v in o.items() if k in ('delay', 'token', 'hashes')})
        c.write_change_list(outfile=world.p('out.xml'), ref_sitemap=local or lu, newref_sitemap=lu)
    return world.run(op, fn, **kw)
