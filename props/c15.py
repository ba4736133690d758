"""C15: the resource list is looked for in the documented order."""

from sim import model
from sim.core import Violation
from sim.fs import write_file, tree, _real
from sim.model import Site, diff_trees, full_tree, parse_status, sync
from sim.source import doc, iso
from props.c03 import damage_doc

BUDGET = {'quick': {'runs': 7000, 'wall': 120}, 'thorough': {'runs': 250000, 'wall': 1500}}
RULE = ('one run syncs or audits a destination several times, each time against a source at which a random subset of '
        'the documented locations (and of the documents that they lead to) exists, fails or is damaged; the sequence '
        'of requests and the list used are compared with a reference walk; non-trivial if at least one location '
        'failed before the search ended')
LISTS = ('rounds',)
REAL = ('client.find_resource_list and helpers, source_description, capability_list, resource_list, list_base'
        '(_with_index), sitemap, url_or_file_open, resync-sync, urllib, http.client, defusedxml')
STUBS = 'TCP connections, HTTP servers, clock; documents come from a writer of the check'
ASSUMPTIONS = ('a location that fails does so whenever it is tried during one sync (the locations of a source whose '
               'base is its host coincide)',
               'a document that stalls without end is not generated: documents are fetched without a timeout')

# failures of one request, and of a whole host
URI_FAULTS = ['reset_head', 'close_head', 'garbage', 's403', 's404', 's410', 's429', 's500', 's502', 's503', 's504',
              'trunc', 'reset_body', 'badchunk', 'redirect_loop']
BENIGN = ['redirect', 'slow', 'dribble']
HOST_FAULTS = ['refuse', 'dns', 'unreach', 'ctimeout', 'reset_send']
DAMAGE = ['missing', 'missing', 'missing', 'cut', 'html', 'zero', 'wrongcap', 'wrongroot', 'entities', 'badutf8',
          'noloc', 'twolocs', 'nolocal']
BASES = ['http://example.org', 'http://example.org/base', 'http://example.org/a/b', 'http://example.org/x/y/z.d',
         'http://example.org:8080/~u', 'http://www.example.org/set+1/resourcelist.xml.d']


def gen_state(rng, p_fail):
    """How a document fares: ['ok'], ['damage', kind, frac], ['fault', kind, frac] or ['benign', kind, frac]."""
    r = rng.random()
    if r < p_fail * 0.6:
        return ['damage', rng.choice(DAMAGE), round(rng.random(), 4)]
    if r < p_fail:
        return ['fault', rng.choice(URI_FAULTS), round(rng.random() * 0.97, 4)]
    if r > 0.93:
        return ['benign', rng.choice(BENIGN), round(rng.random(), 4)]
    return ['ok']


def gen_list(rng, p_fail):
    return {'state': gen_state(rng, p_fail), 'n': rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.9 else 0,
            'parts': rng.choice([0, 0, 0, 1, 2]), 'cap': rng.random() < 0.8,
            'part_state': gen_state(rng, 0.25), 'psel': rng.randrange(9), 'shared': rng.random() < 0.5}


def gen_caps(rng, p_fail):
    return {'state': gen_state(rng, p_fail), 'where': rng.randrange(5), 'form': rng.choice(['abs', 'rel', 'host', 'net']),
            'others': rng.sample(['changelist', 'resourcedump', 'changedump', 'resourcelist-archive', 'x-custom'],
                                 rng.choice([0, 0, 1, 2, 3])),
            'has': rng.random() < 0.9, 'index': rng.random() < 0.04,
            'list': rng.choice(['own', 'own', 'own', 'rl', 'sm_base', 'sm_host']),
            'lwhere': rng.randrange(6), 'lform': rng.choice(['abs', 'rel', 'host', 'net']),
            'own': gen_list(rng, p_fail)}


def gen_desc(rng, p_fail):
    return {'state': gen_state(rng, p_fail), 'n': rng.choice([0, 2, 3]) if rng.random() < 0.12 else 1,
            'index': rng.random() < 0.12, 'part_state': gen_state(rng, 0.2), 'caps': gen_caps(rng, p_fail)}


def plan(rng, tier):
    rounds = []
    local = rng.random() < 0.12
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        p = rng.choice([0.0, 0.3, 0.6, 0.85, 0.97])
        q = rng.choice([0.2, p, p])
        o = {'delete': rng.random() < 0.8, 'driver': rng.choice(['api', 'cli']), 'noauth': False}
        if rng.random() < 0.1:
            o['nomulti'] = True
        if rng.random() < 0.3:
            o['hashes'] = ['md5']
        rounds.append({'mode': rng.choice(['baseline', 'baseline', 'audit']), 'o': o,
                       'explicit': rng.choice([None, None, None, None, 'sitemap', 'caplist', 'both']),
                       'xwhere': rng.randrange(6), 'xlist': gen_list(rng, q), 'xcaps': gen_caps(rng, q),
                       'wk_base': gen_desc(rng, p), 'wk_host': gen_desc(rng, p), 'rl': gen_list(rng, p),
                       'sm_base': gen_list(rng, p), 'sm_host': gen_list(rng, q),
                       'hosts': [[h, rng.choice(HOST_FAULTS)] for h in
                                 ['caps.net', 'lists.org'] + (['MAIN'] if rng.random() < 0.3 else [])
                                 if rng.random() < 0.12]})
    base = rng.choice(BASES)
    maps = [[base, 'dst/d0']]
    if rng.random() < 0.3:
        maps.append(['http://second.example.org/s', 'dst/d1'])
    return {'maps': maps, 'local': local, 'rounds': rounds}


class Search(object):
    """The documents of a source in one round, and what a client has to make of them."""

    def __init__(self, world, site, rd, k):
        self.world, self.site, self.rd, self.k = world, site, rd, k
        self.base = site.conf['maps'][0][0]
        loc = model.doc_locations(site.conf)
        self.host = loc['host']
        self.loc = loc
        self.docs = {}          # uri -> bytes as served
        self.faults = {}        # uri -> fault spec
        self.bad = {}           # uri -> True if reading it fails
        self.lists = {}         # list uri -> {'names': [...], 'parts': [...]}
        self.caps = {}          # caplist uri -> record
        self.descs = {}         # source description uri -> record
        self.hostfault = {}
        self.n = 0

    def host_of(self, uri):
        return uri.split('://', 1)[1].split('/', 1)[0] if '://' in uri else ''

    def put(self, uri, data, state, is_part=False):
        """Serve a document in some state of health."""
        if uri in self.bad:
            return False
        bad = False
        if state[0] == 'damage':
            kind = 'missing' if state[1] == 'nolocal' else state[1]
            new = damage_doc(data, kind, state[2], is_part, b'<sitemapindex' in data)
            if new is None:
                bad, data = True, None
            elif new is not False and new != data:
                bad, data = True, new
        elif state[0] == 'fault' and not self.site.local:
            self.faults[uri] = [state[1], state[2]]
            bad = True
        elif state[0] == 'benign' and not self.site.local:
            self.faults[uri] = [state[1], state[2]]
        if data is not None:
            self.docs[uri] = data
        self.bad[uri] = bad
        return True

    def add_list(self, uri, spec):
        if uri in self.lists or uri in self.bad:
            return
        self.n += 1
        base = self.base
        names = ['l%d_%d' % (self.n, i) for i in range(spec['n'])]
        if spec['shared'] and names:
            names.append('shared')
        entries = []
        for nm in names:
            u = base + '/' + nm
            if u not in self.site.res:
                self.site.put(u, 100 + len(self.site.res), 20 + len(nm) * 3 + len(self.site.res), 1e9 + 10 * len(self.site.res))
            entries.append(self.site.entry(u))
        cap = 'resourcelist' if spec['cap'] else None
        md = {'at': iso(self.world.sim.now)} if cap else {}
        rec = {'uris': [base + '/' + nm for nm in names], 'parts': []}
        if spec['parts']:
            index = []
            for n, i in enumerate(range(0, max(1, len(entries)), spec['parts'])):
                pu = '%s.part%02d.xml' % (uri.replace('?', '_'), n)
                st = spec['part_state'] if n == spec['psel'] % max(1, -(-len(entries) // spec['parts'])) else ['ok']
                self.put(pu, doc(cap, entries[i:i + spec['parts']], md=md), st, True)
                rec['parts'].append(pu)
                index.append({'uri': pu})
            self.put(uri, doc(cap, index, md=md, index=True), spec['state'])
        else:
            self.put(uri, doc(cap, entries, md=md), spec['state'])
        self.lists[uri] = rec

    def place(self, where, name, beside, other):
        return [self.base + '/rs/' + name, beside.rsplit('/', 1)[0] + '/' + name, self.host + '/' + name,
                'http://%s/%s' % (other, name), self.base + '/deep/er/' + name, self.base + '/q?doc=%s&x=1' % name][where]

    def href(self, frm, to, form):
        """A link to `to` for use in the document at `frm`."""
        if self.site.local:
            d = frm.rsplit('/', 1)[0]
            return to[len(d) + 1:] if form == 'rel' and to.startswith(d + '/') else to
        if form == 'net':
            return to.split(':', 1)[1]
        same = self.host_of(frm) == self.host_of(to)
        if form == 'host' and same:
            return '/' + to.split('://', 1)[1].split('/', 1)[1]
        if form == 'rel' and same:
            d = frm.rsplit('/', 1)[0]
            if to.startswith(d + '/'):
                return to[len(d) + 1:]
            up = d.rsplit('/', 1)[0]
            if up.count('/') >= 2 and to.startswith(up + '/'):
                return '../' + to[len(up) + 1:]
        return to

    def add_caps(self, uri, spec, key):
        if uri in self.caps or uri in self.bad:
            return
        if spec['list'] == 'own' or self.site.local:
            w = spec['lwhere']
            lu = self.place(w if not self.site.local else w % 2, 'list-%s.xml' % key, uri, 'lists.org')
            self.add_list(lu, spec['own'])
        else:
            lu = self.loc[spec['list']]
        entries = [{'uri': '%s/rs/%s-%d.xml' % (self.base, c, i), 'capability': c}
                   for i, c in enumerate(spec['others'])]
        if spec['has']:
            entries.insert(len(entries) // 2, {'uri': self.href(uri, lu, spec['lform']), 'capability': 'resourcelist'})
        state = spec['state']
        if spec['index']:
            self.put(uri, doc('capabilitylist', entries, index=True), ['ok'])
            self.bad[uri] = True
        else:
            self.put(uri, doc('capabilitylist', entries), state)
        self.caps[uri] = lu if spec['has'] else None

    def add_desc(self, uri, spec, key):
        if uri in self.descs or uri in self.bad:
            return
        c = spec['caps']
        cu = self.place(c['where'] if not self.site.local else c['where'] % 2, 'caps-%s.xml' % key, uri, 'caps.net')
        self.add_caps(cu, c, key)
        entries = []
        if spec['n']:
            entries.append({'uri': self.href(uri, cu, c['form']), 'capability': 'capabilitylist'})
        for i in range(1, spec['n']):
            entries.append({'uri': self.base + '/rs/caps-%s-%d.xml' % (key, i), 'capability': 'capabilitylist'})
        rec = {'n': len(entries), 'caps': cu, 'parts': []}
        if spec['index'] and not self.site.local and entries:
            entries[0]['uri'] = cu
            for i, e in enumerate(entries):
                pu = self.base + '/rs/desc-%s-%d.xml' % (key, i)
                self.put(pu, doc('description', [e]), spec['part_state'] if i == 0 else ['ok'], True)
                rec['parts'].append(pu)
            self.put(uri, doc('description', [{'uri': p} for p in rec['parts']], index=True), spec['state'])
        else:
            self.put(uri, doc('description', entries), spec['state'])
        self.descs[uri] = rec

    def build(self):
        rd, loc = self.rd, self.loc
        for key in ('rl', 'sm_base', 'sm_host'):
            if key in loc:
                self.add_list(loc[key], rd[key])
        self.xlist = self.xcaps = None
        if rd['explicit'] in ('sitemap', 'both'):
            w = rd['xwhere'] if not self.site.local else rd['xwhere'] % 2
            self.xlist = self.place(w, 'mine.xml', self.base + '/x', 'lists.org')
            self.add_list(self.xlist, rd['xlist'])
        if rd['explicit'] in ('caplist', 'both'):
            w = rd['xwhere'] if not self.site.local else rd['xwhere'] % 2
            self.xcaps = self.place(w, 'mycaps.xml', self.base + '/x', 'caps.net')
            self.add_caps(self.xcaps, rd['xcaps'], 'x')
        self.add_desc(loc['wk_base'], rd['wk_base'], 'b')
        if 'wk_host' in loc and loc['wk_host'] != loc['wk_base']:
            self.add_desc(loc['wk_host'], rd['wk_host'], 'h')
        for h, kind in rd['hosts']:
            if not self.site.local:
                self.hostfault[self.host_of(self.base).split(':')[0] if h == 'MAIN' else h] = [kind, 0.5]

    # -- the reference walk

    def fetch(self, uri):
        """Note the request, True if the document can be read."""
        self.seq.append(uri)
        if self.host_of(uri).split(':')[0] in self.hostfault:
            return False
        return not self.bad.get(uri, True)

    def read_list(self, uri):
        if not self.fetch(uri):
            return False
        rec = self.lists[uri]
        if rec['parts']:
            if self.rd['o'].get('nomulti'):
                return False
            for p in sorted(rec['parts']):
                if not self.fetch(p):
                    return False
        self.used = uri
        return True

    def from_caps(self, uri):
        """True, False or 'fatal'."""
        if not self.fetch(uri):
            return False
        lu = self.caps[uri]
        if lu is None:
            return 'fatal'
        return self.read_list(lu)

    def from_desc(self, uri):
        if not self.fetch(uri):
            return False
        rec = self.descs[uri]
        for p in sorted(rec['parts']):
            if not self.fetch(p):
                return False
        if rec['n'] != 1:
            return 'fatal'
        return self.from_caps(rec['caps'])

    def walk(self, dedupe):
        """Sets seq (documents requested), used (list or None), tried (locations that failed)."""
        self.seq, self.used, self.tried = [], None, []
        if self.xlist:
            r = self.read_list(self.xlist)
            self.tried.append(self.seq[:])
            return r
        if self.xcaps:
            r = self.from_caps(self.xcaps)
            self.tried.append(self.seq[:])
            return r
        done = set()
        for key, fn in (('wk_base', self.from_desc), ('wk_host', self.from_desc), ('rl', self.read_list),
                        ('sm_base', self.read_list), ('sm_host', self.read_list)):
            u = self.loc.get(key)
            if u is None or (dedupe and u in done):
                continue
            done.add(u)
            i = len(self.seq)
            r = fn(u)
            self.tried.append(self.seq[i:])
            if r:
                return r
        return False


def execute(world, plan):
    conf = {'maps': plan['maps'], 'route': 'rl', 'style': 0, 'hashes': ['md5'], 'local': plan['local']}
    if plan['local']:
        conf['maps'] = [['$R/src', 'dst/d0']]
    site = Site(world, conf)
    site.classes()
    model.bystanders(site)
    for k, rd in enumerate(plan['rounds']):
        one(world, site, rd, k)
    if world.sim.escapes:
        raise Violation('outside: %s' % (world.sim.escapes[:3],))


def one(world, site, rd, k):
    sim = world.sim
    sim.advance(50)
    s = Search(world, site, rd, k)
    s.build()
    if site.local:
        for rel, v in tree(world.p('src')).items():
            if v is not None and (rel.endswith('.xml') or rel.endswith('resourcesync')):
                _real['unlink'](world.p('src') + '/' + rel)
        for u, d in s.docs.items():
            write_file(u, d, sim.now)
    site.server.docs.clear()
    site.server.docs.update(s.docs)
    o = dict(rd['o'], noauth=bool(rd['explicit']))
    if s.xlist:
        o['sitemap'] = s.xlist
    if s.xcaps:
        o['caplist'] = s.xcaps
    result = s.walk(False)
    seqs = [s.seq]
    s.walk(True)
    seqs.append(s.seq)
    used, tried = s.used, s.tried
    if len(seqs[0]) > 1 and (not result or len(tried) > 1):
        world.nontrivial = True
    sim.probe('result_%s' % result)
    if used:
        sim.probe('used_after_%d' % (len(tried) - 1))
    fatal = result is not True
    empty = not fatal and not s.lists[used]['uris']
    mode = rd['mode']
    before = full_tree(world)
    pre = site.dst_tree()
    a0 = len(world.net.attempts)
    # the faults concern the search, not the resources
    world.net.uri_fault = s.faults.get
    docs = set(s.docs) | set(s.bad)

    def kind_for(host):
        # resources are delivered whatever state the host was in before
        n = len([a for a in world.net.attempts[a0:] if not a['follow']])
        return s.hostfault.get(host) if n <= len(seqs[0]) else None
    world.net.kind_for = kind_for if s.hostfault else None
    try:
        r = sync(site, 'round%d' % k, mode, o)
    finally:
        world.net.uri_fault = world.net.kind_for = None
    made = [a for a in world.net.attempts[a0:] if not a['follow']]
    got = []
    for a in made:
        h = a['host'] + ('' if a['port'] == 80 else ':%d' % a['port'])
        got.append((h, 'http://%s%s' % (h, a['request'].target) if a['request'] else None))
    what = 'documents %s' % ', '.join('%s%s' % (u, '' if not s.bad.get(u, True) else '!') for u in seqs[0])
    if not site.local:
        match = None
        for seq in seqs:
            n = len(seq)
            if len(got) >= n and all(h == s.host_of(u) and g in (None, u) for (h, g), u in zip(got, seq)):
                match = max(n, match or 0)
        rest = [g for (h, g) in got[match or 0:]]
        if match is None or any(g in docs or g not in site.res for g in rest) or ((fatal or empty) and rest):
            i = 0
            while i < min(len(got), len(seqs[0])) and got[i][0] == s.host_of(seqs[0][i]) and got[i][1] in (None, seqs[0][i]):
                i += 1
            raise Violation('order: request %d was for %s, expected %s; %s'
                            % (i + 1, got[i][1] or got[i][0] if i < len(got) else None,
                               seqs[0][i] if i < len(seqs[0]) else 'resources' if not fatal else 'none', what))
    if fatal or empty:
        if r.kind != 'error' or r.exc not in ('ClientFatalError', 'ClientError'):
            raise Violation('accepted: %s ended with %s although %s; %s'
                            % (mode, r.brief(), 'the list is empty' if empty else 'no list can be found', what))
        d = diff_trees(before, full_tree(world))
        if d:
            raise Violation('changed: %s without a resource list changed files: %s; %s' % (mode, d, what))
        if fatal:
            # every location that failed has to be accounted for, by one of its documents
            for chain in tried if result is False else tried[-1:]:
                if not any(u in r.msg for u in chain):
                    raise Violation('message: the error mentions none of %s: %s' % (chain, r.msg[:600]))
        return
    if not r.ok:
        raise Violation('refused: %s ended with %s (%s) although %s works; %s' % (mode, r.brief(), r.where, used, what))
    listed = {site.path(u): u for u in s.lists[used]['uris']}
    post = site.dst_tree()
    same = [p for p in listed if p in pre]
    st = [parse_status(m) for m in r.statuses()]
    if not st:
        raise Violation('status: no status is reported')
    want = {'same': len(same), 'created': len(listed) - len(same), 'updated': 0,
            'deleted': len([p for p in pre if p not in listed])}
    first = st[0][1]
    for key, v in want.items():
        # "created" is "to create" before the sync, "same" is not changed
        if first.get('to ' + key[:-1], first.get(key)) != v:
            raise Violation('used: with the list %s %d are %s, but %s is reported; %s' % (used, v, key, st[0], what))
    if mode == 'audit':
        d = diff_trees(before, full_tree(world))
        if d:
            raise Violation('changed: an audit changed files: %s' % d)
        return
    for p, u in listed.items():
        if p not in post or post[p][0] != site.res[u][0]:
            raise Violation('used: %s of the list %s is not there afterwards; %s' % (u, used, what))
    for p in post:
        if p not in listed and (o.get('delete') or p not in pre):
            raise Violation('used: %s is there but not in the list %s; %s' % (p, used, what))


FINDINGS = {}
SCENARIOS = {}
