"""C22: an incremental sync does what the change list says, and nothing else."""

import os

from sim import model
from sim.core import Violation
from sim.fs import read_file, write_file, _real
from sim.model import Site, diff_trees, full_tree, parse_status, sync
from sim.source import content, doc, hash_att, iso

BUDGET = {'quick': {'runs': 6000, 'wall': 120}, 'thorough': {'runs': 250000, 'wall': 1500}}
RULE = ('one run starts with any files in the destination and any starting point and lets a client apply one to five generated '
        'change lists incrementally, without faults, with network and disk faults, crashes and dry runs, some of the lists '
        'unusable; non-trivial if a sync had something to apply or an unusable list to refuse')
LISTS = ('steps', 'local', 'starts')
REAL = ('resync.client, client_state, change_list, resource_container, list_base_with_index, sitemap, resource, mapper, '
        'url_authority, url_or_file_open, w3c_datetime, resync-sync, urllib, http.client, configparser')
STUBS = 'TCP connections, HTTP server, clock, faults of the file system; writer of change lists, model of their application'
ASSUMPTIONS = ('the entries of a change list are in the order of their changes, as the specification demands',
               'in lists without times of changes the last modification is that of the change; deletions have one too',
               'names of resources and of local files do not require a path to be a file and a directory',
               'local lstat() works (its failure looks like a missing file)')
STATE = '.resync-client-status.cfg'
CALLS = ['write', 'openw', 'mkdir', 'close', 'utime', 'unlink', 'replace', 'rename', 'truncate', 'open', 'read']
NET = ['refuse', 'unreach', 'ctimeout', 'stall_head', 'reset_head', 'close_head', 's404', 's410', 's500', 's503', 'trunc',
       'reset_body', 'badchunk', 'redirect_loop']
# what is wrong with a list: the entries that remain could be applied
BAD = ['notime', 'nochange', 'badchange', 'badtime', 'badlastmod', 'unmapped', 'kind', 'kind2', 'gone', 'cut', 'from', 'nostate',
       'part']


def plan(rng, tier):
    conf = model.gen_conf(rng)
    conf['parts'] = 0
    names = rng.sample(model.NAMES, rng.choice([1, 2, 3, 5]))
    bulk = rng.random() < 0.006
    if bulk:
        names += ['k/%03d' % i for i in range(80)]
    local = [[rng.randrange(3), n, 500 + i, rng.choice(model.SIZES), model.gen_ts(rng)]
             for i, n in enumerate(names) if rng.random() < 0.5]
    local += [[rng.randrange(3), rng.choice(model.EXTRAS), 600 + i, rng.choice([0, 5, 50]), model.gen_ts(rng)]
              for i in range(rng.choice([0, 1, 2, 3]))]
    steps = []
    cid = 0
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        entries = []
        for _ in range(rng.choice([60, 150] if bulk else [0, 1, 1, 2, 3, 5, 8, 12])):
            cid += 1
            entries.append([rng.randrange(3), rng.choice(names), rng.choice(['created', 'updated', 'updated', 'deleted']),
                            cid, model.pick_size(rng, 0.03), rng.choice([0, 0, 0.2, 1, 1, 60, 90000]),
                            rng.choice([0, 0, 0, 1, 2]), rng.random() < 0.8])
        o = {'delete': rng.random() < 0.6, 'hashes': model.gen_hashes(rng), 'timeout': 10, 'tries': rng.choice([1, 2, 3]), 'noauth': False,
             'ignore': rng.random() < 0.5, 'reldst': rng.random() < 0.2, 'verbose': rng.random() < 0.1}
        if rng.random() < 0.3:
            # before, between or after the changes
            o['start'] = round(rng.random() * 1.3 - 0.15, 3)
            o['how'] = rng.choice(['frac', 'frac', 'second', 'day', 'offset'])
        if rng.random() < 0.2:
            o['cl'] = rng.choice(['abs', 'rel', 'file'])
        bad = None
        if rng.random() < 0.25:
            bad = [rng.choice(BAD), rng.randrange(99)]
        f = {}
        r = rng.random()
        if bad is None and r < 0.35:
            if r < 0.15:
                f['crash'] = round(rng.random(), 4)
                f['mode'] = rng.choice(['before', 'after', 'torn', 'sigint'])
            elif r < 0.27:
                f['net'] = {'p': rng.choice([0.1, 0.4, 1.0]), 'kinds': rng.sample(NET, 3)}
            else:
                f['fs'] = {'p': rng.choice([0.02, 0.1, 0.4]), 'calls': CALLS, 'short': rng.random() < 0.3,
                           'sticky_full': rng.random() < 0.3}
                if rng.random() < 0.4:
                    f['fs']['only'] = rng.choice([['dst'], ['state']])
        elif r < 0.45:
            o['dryrun'] = True
        elif bad is None and r < 0.52:
            f['slow'] = model.gen_slow(rng)
        if rng.random() < 0.3:
            f['skew'] = rng.choice([-5, 7200, 1e6, -1e8, 3e7])
        keep = rng.random() < 0.4
        steps.append([entries, o, bad, f, keep, rng.choice([0, 0, 0, 1, 2, 3])])
    times = rng.choice(['both', 'both', 'datetime', 'lastmod'])
    return {'conf': conf, 'local': local, 'steps': steps, 'times': times, 'gran': rng.choice([1.0, 1.0, 0.001, 0.000001]),
            'starts': [round(rng.random(), 3)] if rng.random() < 0.8 else [],
            'spec': rng.choice(['1.0', '1.1', None]) if times == 'lastmod' else None}


class Run(object):
    def __init__(self, world, plan):
        self.w, self.plan = world, plan
        self.site = Site(world, plan['conf'])
        self.site.classes()
        world.dirs['state'] = world.cwd
        self.sim = world.sim
        self.entries = []           # of the change list so far: dicts
        self.start = None           # recorded starting point
        self.n = 0
        self.t0 = self.sim.now
        model.bystanders(self.site)
        for m, name, cid, size, ts in plan['local']:
            p = self.site.path(self.site.uri(m, name))
            if p and model._can_make(p, world.root) and not os.path.isdir(p):
                write_file(p, content(cid, size), ts)
        if plan['starts']:
            # a first baseline sync sets the starting point
            ts = self.sim.now - 1000 - plan['starts'][0]
            self.site.put(self.site.uri(0, 'start-here'), 999, 10, ts)
            self.site.publish()
            r = sync(self.site, 'base', 'baseline', {'timeout': 10, 'tries': 1, **({'spec': plan['spec']} if plan['spec'] else {})})
            if not r.ok:
                raise Violation('failed: first baseline ended with %s' % r.brief())
            self.start = ts
        else:
            self.site.publish()

    # -- the source

    def add(self, m, name, change, cid, size, gap, old, meta):
        site, sim = self.site, self.sim
        uri = site.uri(m, name)
        sim.advance(gap)
        g = self.plan['gran']
        t = int(sim.now / g) * g
        e = {'uri': uri, 'change': change, 't': t, 'listed': True, 'meta': meta}
        if change == 'deleted':
            site.remove(uri)
        else:
            data = content(cid, size)
            ts = t
            if self.plan['times'] != 'lastmod' and old:
                ts = (1.4e9 + cid * 777 + 0.25) if old == 1 else t + 4000
            site.put(uri, cid, size, ts)
            e.update(data=data, ts=ts)
        self.entries.append(e)

    def listing(self):
        """Entries as in the document, in order."""
        c, times = self.site.conf, self.plan['times']
        style = c.get('style', 0)
        out = []
        for e in self.entries:
            d = {'uri': e['uri'], 'change': e['change']}
            if times in ('both', 'datetime'):
                d['datetime'] = iso(e['t'], style)
            if e['change'] != 'deleted':
                if times == 'both':
                    d['lastmod'] = iso(e['ts'], style)
                if e['meta']:
                    d['length'] = len(e['data'])
                    if c.get('hashes'):
                        d['hash'] = hash_att(e['data'], c['hashes'])
            if times == 'lastmod':
                d['lastmod'] = iso(e['t'], style)
            out.append(d)
        return out

    def publish(self, uri, entries, parts, bad):
        md = {'from': iso(self.t0)}
        docs = {}
        cap = 'changelist'
        sel = 0
        if bad:
            kind, sel = bad
            if entries:
                e = entries[sel % len(entries)]
                if kind == 'notime':
                    e.pop('datetime', None)
                    e.pop('lastmod', None)
                elif kind == 'nochange':
                    del e['change']
                elif kind == 'badchange':
                    e['change'] = ['changed', 'Updated', 'delete', 'new'][sel % 4]
                elif kind == 'badtime':
                    e['datetime'] = ['yesterday', '2020-13-01', '2020-01-01T00:00:00'][sel % 3]
                elif kind == 'badlastmod':
                    e['lastmod'] = ['yesterday', '2020-13-01', '2020-01-01T00:00:00'][sel % 3]
                elif kind == 'unmapped':
                    h = e['uri'].split('://')[1].split('/')[0]
                    u = 'http://%s/not/below/any/%s' % (h, 'xy'[sel % 2])
                    if self.site.path(u) is None:
                        e['uri'] = u
                    else:
                        bad[0] = 'none'
            if kind == 'kind':
                cap = ['resourcelist', 'changedump', 'capabilitylist', None, 'changelist-archive'][sel % 5]
        if parts and entries and not (bad and bad[0] in ('kind', 'kind2')):
            index = []
            for k, i in enumerate(range(0, len(entries), parts)):
                pu = uri[:-4] + ('-%05d.xml' % k if sel % 3 else '-%d.xml' % (9 + k))
                docs[pu] = doc('changelist', entries[i:i + parts], md=md)
                index.append({'uri': pu})
            docs[uri] = doc('changelist', index, md=md, index=True)
            if bad and bad[0] == 'part':
                pu = index[sel % len(index)]['uri']
                if sel % 2:
                    del docs[pu]
                else:
                    docs[pu] = docs[pu][:-9 - sel]
        else:
            docs[uri] = doc(cap, entries, md=md, pretty=self.site.conf.get('pretty', False))
        if bad and bad[0] == 'kind2':
            docs[uri] = [b'', b'<html/>', b'not found', docs[uri].replace(b'urlset', b'feed')][sel % 4]
        elif bad and bad[0] == 'gone':
            del docs[uri]
        elif bad and bad[0] == 'cut':
            docs[uri] = docs[uri][:-(10 + sel)]
        return docs

    # -- the client

    def stored(self):
        p = self.w.cwd + '/' + STATE
        return read_file(p) if os.path.exists(p) else None

    def step(self, entries, o, bad, f, keep, parts):
        site, sim, w = self.site, self.sim, self.w
        self.n += 1
        op = 'inc%d' % self.n
        sim.advance(1)
        if not keep:
            self.entries = []
        for e in entries:
            self.add(*e)
        sim.advance(0.1)
        o, bad = dict(o), bad and list(bad)
        if self.plan['spec']:
            o['spec'] = self.plan['spec']
        base = model.doc_locations(site.conf)['base']
        uri = base + '/changelist.xml'
        target = uri
        if o.get('cl'):
            target = uri = base + '/chg/cl-1.xml'
            o['changelist'] = uri
            if o['cl'] == 'rel':
                o['changelist'] = 'chg/cl-1.xml'
            elif o['cl'] == 'file':
                # the list in a file: authority over the resources is that of the source no longer
                target = o['changelist'] = w.p('cwd/my-changes.xml')
                o['noauth'] = True
        listing = self.listing()
        docs = self.docs = self.publish(target, listing, parts if o.get('cl') != 'file' else 0, bad)
        for u in [u for u in site.server.docs if 'changelist' in u or '/chg/' in u]:
            del site.server.docs[u]
        if o.get('cl') == 'file':
            if os.path.exists(target):
                _real['unlink'](target)
            for u, d in docs.items():
                write_file(u, d, sim.now)
        else:
            site.server.docs.update(docs)
        # starting point
        if 'start' in o:
            ts = [e['t'] for e in self.entries] or [sim.now]
            lo, hi = min(ts), max(ts)
            s = lo + o['start'] * (hi - lo + 2)
            how = o['how']
            if how == 'frac':
                s = int(s * 1000) / 1000.0
                o['from'] = iso(s)
            elif how == 'second':
                s = float(int(s))
                o['from'] = iso(s)
            elif how == 'day':
                s = float(int(s // 86400) * 86400)
                o['from'] = iso(s)[:10]
            else:
                s = float(int(s))
                o['from'] = iso(s)[:19].rstrip('Z') + rng_offset(o)
            start = s
        else:
            start = self.start
        if bad and bad[0] == 'from':
            o['from'] = ['tomorrow', '', '2020-13-01', '1600000000', '2020-01-01T10:00:00', '20200101T000000Z'][bad[1] % 6]
            if not o['from']:
                o['from'] = ' '
        elif bad and bad[0] == 'nostate':
            o.pop('from', None)
            p = w.cwd + '/' + STATE
            if os.path.exists(p):
                if bad[1] % 2:
                    write_file(p, b'[incremental]\nhttp___elsewhere_example_ = 1.0\n', sim.now)
                else:
                    _real['unlink'](p)
            self.start = None
        pre = site.dst_tree()
        before = full_tree(w)
        state = self.stored()
        nf = sum(sim.faults.values())
        if f.get('slow'):
            w.net.uri_fault = model.slow(site, f['slow'])
        try:
            r = sync(site, op, 'incremental', o, **model.run_args(f, len(entries) + 2))
        finally:
            w.net.uri_fault = None
        faulty = r.kind in ('crash', 'hang') or sum(sim.faults.values()) != nf
        self.judge(o, bad, r, faulty, start, pre, before, state, listing)

    def judge(self, o, bad, r, faulty, start, pre, before, state, listing):
        site, sim, w = self.site, self.sim, self.w
        post = site.dst_tree()
        after = full_tree(w)
        new_state = self.stored()
        for d in diff_trees(before, after, limit=10 ** 6):
            name = d.lstrip('+-').split(' ')[0]
            if not name.startswith('dst') and not (name == 'cwd/' + STATE or (faulty and name.startswith('cwd/' + STATE))):
                raise Violation('outside: %s' % d)
        bodies = model.fetched(r, site)
        no_start = start is None and 'from' not in o
        top = max((e['t'] for e in self.entries), default=None)
        needs = bool(bad) and (bad[0] in ('kind', 'kind2', 'gone', 'cut', 'from', 'nostate')
                               or (bad[0] in ('notime', 'nochange', 'badchange', 'badtime', 'badlastmod') and bool(listing)))
        if bad and bad[0] == 'part':
            needs = any(l.startswith(b'<sitemapindex') for d in self.docs.values() for l in d.splitlines()[1:2])
        if bad and bad[0] in ('unmapped',) and listing:
            # noticed when it has to be applied; what is listed before it may have been applied
            e = self.entries[bad[1] % len(listing)]
            if r.ok and not no_start and e['t'] >= start and e['change'] != 'deleted':
                raise Violation('accepted: sync with a resource outside of the mappings ended with %s' % r.brief())
            sim.probe('unmapped')
            needs = None
        if needs or (no_start and not faulty):
            w.nontrivial = True
            sim.probe('unusable_' + (bad[0] if bad else 'no_start'))
            what = bad[0] if bad else 'no starting point'
            if r.ok or r.kind == 'hang':
                raise Violation('accepted: sync with unusable input (%s) ended with %s' % (what, r.brief()))
            if post != pre or new_state != state:
                raise Violation('refused: sync with unusable input (%s) changed %s'
                                % (what, diff_trees(before, after)))
            if bodies:
                raise Violation('refused: sync with unusable input (%s) requested %s' % (what, bodies[:2]))
            if r.kind == 'error' and r.exc not in model.CLIENT_ERRORS and site.conf['driver'] == 'cli':
                raise Violation('refused: %s' % r.brief())
            return
        if needs is None:
            # anything but a record of an incomplete sync
            if not r.ok and new_state != state:
                raise Violation('recorded: a sync that failed moved the starting point')
            self.reload(new_state, state, top)
            return
        if no_start:
            return
        if o.get('dryrun'):
            if post != pre or new_state != state or bodies:
                raise Violation('dry run: changed %s' % (diff_trees(before, after) or bodies))
        last = {}
        todo = [e for e in self.entries if e['t'] >= start]
        first = {}
        for e in todo:
            first.setdefault(e['uri'], e)
            last[e['uri']] = e
        want = {}
        for u, e in last.items():
            if e['change'] == 'deleted' and first[u]['change'] == 'created' and pre.get(site.path(u)) is None:
                continue        # was there in between only
            want[u] = e
        up = {u: e for u, e in want.items() if e['change'] != 'deleted'}
        gone = {u: e for u, e in want.items() if e['change'] == 'deleted'}
        paths = {site.path(u): u for u in want}
        # what no change is listed for stays, in any case
        for p in set(pre) | set(post):
            if p not in paths and pre.get(p) != post.get(p):
                raise Violation('untouched: %s was changed by a sync that has no change for it' % p)
        for u in gone:
            if not o.get('delete') and post.get(site.path(u)) != pre.get(site.path(u)):
                raise Violation('kept: %s was changed although deletion is off' % site.path(u))
        if set(bodies) - set(up):
            raise Violation('requests: %s requested without reason' % sorted(set(bodies) - set(up))[0])
        failed = [m for (lv, nm, m) in r.log if lv >= 30 and not m.startswith(('Status:', 'Will ', 'Ignoring '))]
        failed = [m for m in failed if not m.startswith('Failed to DELETE')
                  or not any((u + ' ') in m and pre.get(site.path(u)) is None for u in gone)]
        work = bool(up) or (bool(gone) and bool(o.get('delete')))
        if faulty and (not r.ok or failed):
            # the starting point moves only after all has been applied
            if new_state != state:
                ok = r.kind in ('crash', 'error', 'exit', 'hang') and not failed and self.complete(post, up, gone, o)
                if not ok:
                    raise Violation('recorded: starting point moved by an incomplete sync (%s)' % r.brief())
            self.reload(new_state, state, top)
            return
        if not r.ok or failed:
            raise Violation('failed: incremental sync without any fault ended with %s %s' % (r.brief(), failed[:2]))
        st = [parse_status(m) for m in r.statuses()]
        if not st:
            raise Violation('status: none reported')
        word, n = st[0]
        want_n = (len([e for e in up.values() if e['change'] == 'created']),
                  len([e for e in up.values() if e['change'] == 'updated']), len(gone))
        got = (n.get('to create'), n.get('to update'), n.get('to delete'))
        if got != want_n:
            raise Violation('status: reported (created, updated, deleted) as %s, the change list says %s' % (got, want_n))
        if (word == 'NO CHANGES') != (not want):
            raise Violation('status: says %s with %s' % (word, want_n))
        for text, k in (('Skipped %d changes before ', len(listing) - len(todo)), ('Removed %d prior changes', len(todo) - len(want))):
            said = [m for m in r.messages() if m.startswith(text.split('%')[0])]
            if [m.startswith(text % k) for m in said] != [True] * (k > 0):
                raise Violation('log: says %s, but it is %d changes' % (said, k))
        if o.get('dryrun'):
            would = sorted(m for m in r.messages() if m.startswith('dryrun: would'))
            if len(would) != (len(up) + (len(gone) if o.get('delete') else 0) if work else 0):
                raise Violation('dry run: announces %d of %s' % (len(would), want_n))
            return
        if want:
            w.nontrivial = True
            sim.probe('judged')
        for u, e in up.items():
            p = site.path(u)
            v = post.get(p)
            if v is None:
                raise Violation('missing: %s not copied to %s' % (u, p))
            if v[0] != e['data']:
                raise Violation('content: %s has wrong bytes (%d, expected %d)' % (p, len(v[0]), len(e['data'])))
            ts = e['ts'] if self.plan['times'] == 'both' else e['t'] if self.plan['times'] == 'lastmod' else None
            if ts is not None and int(v[1]) != int(ts):
                raise Violation('time: %s has time %r, listed is %r' % (p, v[1], ts))
            if bodies.count(u) != 1 and not faulty:
                raise Violation('requests: %s requested %d times' % (u, bodies.count(u)))
        for u in gone:
            if o.get('delete') and site.path(u) in post:
                raise Violation('not deleted: %s remains' % site.path(u))
        if not work:
            self.reload(new_state, state, top)
            return
        if len(st) < 2:
            raise Violation('status: no final status')
        w2, n2 = st[-1]
        removed = len([u for u in gone if site.path(u) in pre]) if o.get('delete') else 0
        left = removed < len(gone)
        kd = 'to delete (--delete)' if left else 'deleted'
        got = (n2.get('created'), n2.get('updated'), n2.get(kd))
        if got != want_n[:2] + (len(gone),):
            raise Violation('final status: (created, updated, %s) reported as %s, but it is %s'
                            % (kd, got, want_n[:2] + (len(gone),)))
        if w2 != ('PART APPLIED' if left else 'CHANGES APPLIED'):
            raise Violation('final status: says %s (%d not deleted)' % (w2, len(gone) - removed))
        if top is not None and new_state == state and (self.start is None or top != self.start):
            raise Violation('not recorded: the starting point stays after changes until %r were applied' % top)
        self.reload(new_state, state, top)

    def complete(self, post, up, gone, o):
        site = self.site
        return (all(post.get(site.path(u), (None,))[0] == e['data'] for u, e in up.items())
                and not (o.get('delete') and any(site.path(u) in post for u in gone)))

    def reload(self, new, old, top):
        """Follow the starting point: it can only be what it was or the last change of the list."""
        if new == old:
            return
        self.start = top


def rng_offset(o):
    # other offsets are a known finding of C01
    return '-00:00' if o['ignore'] else '+00:00'


def execute(world, plan):
    run = Run(world, plan)
    for s in plan['steps']:
        run.step(*s)
    if world.sim.escapes:
        raise Violation('outside: %s' % (world.sim.escapes[:3],))
