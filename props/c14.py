"""C14: an explorer session survives whatever the source serves."""

import builtins
import os
import re
import sys
from email.utils import parsedate_to_datetime
from urllib.parse import urljoin

from sim import model
from sim.core import Violation
from sim.fs import write_file
from sim.net import BENIGN, Response
from sim.source import Server, content, doc, iso, parse_iso
from props.c03 import damage_doc

BUDGET = {'quick': {'runs': 14000, 'wall': 120}, 'thorough': {'runs': 300000, 'wall': 1500}}
RULE = ('one run is a session of the explorer, through the API or the script, in which a simulated user types random '
        'valid and invalid input, in a random graph of documents, some of them damaged, missing or odd, over a network '
        'or disk that fails at random; non-trivial if the session showed a document with a menu and met a failure')
LISTS = ('inputs',)
REAL = ('explorer, sitemap, resource, resource_container, url_or_file_open, resync-explorer, urllib, http.client, '
        'defusedxml')
STUBS = 'the user (input function), TCP connections, HTTP server, clock, faults of the file system'
ASSUMPTIONS = ('documents are fetched without a timeout, so servers that stall for ever are not generated',
               'URIs that cannot be requested at all need only leave the session alive',
               'of more than 21 entries the first 20 are shown (documented in the output)')
CAPS = ['description', 'capabilitylist', 'resourcelist', 'changelist', 'resourcedump', 'changedump',
        'resourcelist-archive', 'changelist-archive', 'resourcedump-archive', 'changedump-archive',
        'resourcedump-manifest', 'x-unknown', None]
LISTABLE = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
            'changelist-archive', 'changedump-archive']
OF_RESOURCES = ('resourcelist', 'changelist', 'resourcedump', 'changedump')
NET_KINDS = ['refuse', 'dns', 'unreach', 'ctimeout', 'reset_send', 'reset_head', 'close_head', 'garbage', 's403',
             's404', 's410', 's429', 's500', 's503', 'trunc', 'reset_body', 'badchunk', 'redirect_loop', 'redirect',
             'slow', 'dribble']
DAMAGE = ['missing', 'cut', 'html', 'zero', 'wrongroot', 'entities', 'badutf8', 'noloc', 'twolocs', 'badmd', 'baddate',
          'twomd', 'wrongcap']
ODD = ['mailto:x@y.org', 'ftp://example.org/f', 'http://[::1', 'urn:x:y', 'http://example.org/a b', 'javascript:x',
       'http://ex\u00e4mple.org/\u00fc', 'http://example.org:99999/x', 'http:///nohost', 'data:,x', 'file:///nonexistent/x',
       '//other.net/x', '?q=1', '#frag', ':', 'http:', 'http://example.org:port/', 'unknown+scheme://x/y', '%', '..',
       '/', 'http://user@example.org/x', 'x:y', 'https://example.org/secure', 'http://example.org/\u0100', 'file:',
       'file:relative', '\\', 'http://\u2100.org/']
JUNK = ['', 'x', '0', '-1', '999', 'Q', ' q', 'quit', '1 ', 'bb', '01', '1.0', 'n', '?', 'D', '\u0661', '**', 'back']
TYPES = ['text/plain', 'application/xml', 'image/png']


def plan(rng, tier):
    local = rng.random() < 0.25
    nd = rng.choice([1, 2, 3, 5, 8])
    nr = rng.choice([0, 1, 3, 6])
    docs = []
    for i in range(nd):
        cap = CAPS[min(i, 2)] if rng.random() < 0.3 else rng.choice(CAPS)
        big = rng.random() < 0.06
        entries = []
        for _ in range(rng.choice([20, 21, 22, 23, 40]) if big else rng.choice([0, 1, 2, 2, 3, 5, 8] if i else [1, 2, 3, 5, 8])):
            r = rng.random()
            t = ['doc', rng.randrange(nd)] if r < 0.45 else ['res', rng.randrange(nr)] if r < 0.88 and nr else \
                ['odd', rng.randrange(len(ODD))] if r < 0.97 or big else ['gone', rng.randrange(3)]
            a = {}
            if t[0] == 'doc' and rng.random() < 0.6:
                a['capability'] = rng.choice(CAPS[:-1])
            elif rng.random() < 0.05:
                a['capability'] = 'resource'
            for att in ('length', 'lastmod', 'type'):
                if rng.random() < 0.5:
                    a[att] = rng.choice(['right', 'right', 'wrong'])
            entries.append([t, rng.choice(['abs', 'abs', 'rel', 'host', 'net']), a])
        ln = [[rel, rng.choice([['doc', rng.randrange(nd)], ['doc', rng.randrange(nd)], ['res', 0] if nr else ['gone', 0],
                                ['odd', rng.randrange(len(ODD))]]), rng.choice(['abs', 'rel', 'host'])]
              for rel in ('up', 'index', 'describedby', 'other') if rng.random() < 0.3]
        state = ['ok']
        if rng.random() < (0.2 if i else 0.04):
            state = ['damage', rng.choice(DAMAGE), round(rng.random(), 4)]
        docs.append({'cap': cap, 'index': rng.random() < 0.2, 'entries': entries, 'ln': ln, 'state': state,
                     'where': rng.randrange(4), 'pretty': rng.random() < 0.3})
    res = [{'size': rng.choice([0, 1, 20, 5000]), 'ts': model.gen_ts(rng), 'type': rng.choice(TYPES),
            'lm': rng.choice(['ok', 'ok', 'ok', 'none', 'garbage', 'old']), 'missing': rng.random() < 0.1}
           for _ in range(nr)]
    inputs = []
    for _ in range(rng.choice([1, 4, 8, 12, 25, 60])):
        r = rng.random()
        if r < 0.55:
            inputs.append(['n', round(rng.random(), 4)])
        elif r < 0.7:
            inputs.append(['s', 'b'])
        elif r < 0.86:
            inputs.append(['s', rng.choice(['u', 'i', 'd'])])
        else:
            inputs.append(['s', rng.choice(JUNK)])
    net = fs = None
    if rng.random() < 0.5:
        net = {'p': rng.choice([0.05, 0.2, 0.5]), 'kinds': NET_KINDS if rng.random() < 0.6 else rng.sample(NET_KINDS, 3)}
    if local and rng.random() < 0.6:
        fs = {'p': rng.choice([0.05, 0.3]), 'only': ['docs'], 'calls': ['open', 'read', 'stat', 'lstat']}
    return {'local': local, 'docs': docs, 'res': res, 'inputs': inputs, 'net': net, 'fs': fs,
            'start': rng.choice(['sitemap', 'sitemap', 'sitemap', 'maps', 'maps', 'mapdoc']), 'base': rng.choice(model.BASES),
            'driver': rng.choice(['api', 'cli']), 'verbose': rng.random() < 0.2, 'style': rng.choice([0, 1, 4])}


class Graph(object):
    """The documents and resources that can be explored."""

    def __init__(self, world, plan):
        self.world, self.plan = world, plan
        self.server = Server(world)
        self.local = plan['local']
        base = world.p('docs') if self.local else plan['base']
        self.base = base
        self.host = '' if self.local else '/'.join(base.split('/')[:3])
        self.duri = []
        for i, d in enumerate(plan['docs']):
            if i == 0 and plan['start'] == 'maps':
                u = base if base != self.host else self.host + '/.well-known/resourcesync'
                if self.local:
                    u = base + '/' + ['resourcesync', 'capabilities.xml', 'resourcelist.xml', 'changelist.xml'][d['where']]
            elif i == 0 and plan['start'] == 'mapdoc':
                u = base + '/doc0.xml'
            elif i == 1 and not self.local and (plan['start'] == 'mapdoc' or plan['start'] == 'maps' and base != self.host):
                u = self.host + '/.well-known/resourcesync'
            elif self.local:
                u = base + ['', '', '/sub', '/sub/deep'][d['where']] + '/doc%d.xml' % i
            else:
                u = [base + '/doc%d.xml', base + '/d/doc%d.xml', self.host + '/doc%d', base + '/q?doc=%d&x=y'][d['where']] % i
            self.duri.append(u)
        self.ruri = [base + ['/res%d', '/d/r%d.txt', '/%d.bin'][i % 3] % i for i in range(len(plan['res']))]
        self.size = {}          # of local files
        self.mtime = {}
        self.bad = {}           # document that cannot be read
        self.data = {}
        self.seen = {}          # uri -> (capability, index, entries, links) as served
        for i, r in enumerate(plan['res']):
            if r['missing']:
                continue
            data = content(500 + i, r['size'])
            if self.local:
                write_file(self.ruri[i], data, r['ts'])
                self.size[self.ruri[i]] = len(data)
                self.mtime[self.ruri[i]] = r['ts']
            else:
                self.server.files[self.ruri[i]] = (data, r['ts'])
                self.server.ctype[self.ruri[i]] = r['type']
        self.server.hook = self.serve
        for i, d in enumerate(plan['docs']):
            self.make(i, d)

    def serve(self, uri, req):
        """Resources with odd headers."""
        if uri not in self.server.files:
            return None
        i = self.ruri.index(uri)
        lm = self.plan['res'][i]['lm']
        data, ts = self.server.files[uri]
        if lm == 'ok':
            return None
        hs = [('Content-Type', self.server.ctype[uri])]
        if lm == 'garbage':
            hs.append(('Last-Modified', 'yesterday or so'))
        elif lm == 'old':
            hs.append(('Last-Modified', 'Sunday, 06-Nov-94 08:49:37 GMT'))
        return Response(200, data, hs, tag=('file', uri, data))

    def target(self, t):
        """Absolute URI of a target, None if it is an odd one."""
        if t[0] == 'doc':
            return self.duri[t[1] % len(self.duri)]
        if t[0] == 'res':
            return self.ruri[t[1] % len(self.ruri)] if self.ruri else self.base + '/none'
        if t[0] == 'gone':
            return self.base + '/gone%d' % t[1]
        return None

    def href(self, frm, t, form):
        to = self.target(t)
        if to is None:
            return ODD[t[1]]
        if self.local:
            d = frm.rsplit('/', 1)[0]
            return to[len(d) + 1:] if form == 'rel' and to.startswith(d + '/') else to
        if form == 'net':
            return to.split(':', 1)[1]
        if form == 'host':
            return '/' + to.split('://', 1)[1].partition('/')[2]
        if form == 'rel':
            d = frm.split('?')[0].rsplit('/', 1)[0]
            if d.count('/') > 2 and to.startswith(d + '/'):
                return to[len(d) + 1:]
        return to

    def make(self, i, d):
        u = self.duri[i]
        if u in self.seen:
            return
        entries, seen = [], []
        style = self.plan['style']
        for t, form, a in d['entries']:
            h = self.href(u, t, form)
            e = {'uri': h}
            r = self.plan['res'][t[1] % len(self.plan['res'])] if t[0] == 'res' and self.plan['res'] else \
                {'size': 77, 'ts': 1.1e9, 'type': TYPES[0]}
            if 'capability' in a:
                e['capability'] = a['capability']
            if 'length' in a:
                e['length'] = r['size'] + (a['length'] == 'wrong')
            if 'lastmod' in a:
                e['lastmod'] = iso(r['ts'] + (5 if a['lastmod'] == 'wrong' else 0), style)
            if 'type' in a:
                e['type'] = r['type'] + ('x' if a['type'] == 'wrong' else '')
            entries.append(e)
            seen.append(dict(e, target=u if h in ('#frag', 'http:') and not self.local else self.target(t)))
        ln, links = [], {}
        for rel, t, form in d['ln']:
            h = self.href(u, t, form)
            ln.append({'rel': rel, 'href': h})
            links[rel] = (h, u if h in ('#frag', 'http:') and not self.local else self.target(t))
        data = doc(d['cap'], entries, ln=ln, index=d['index'], pretty=d['pretty'])
        cap = d['cap']
        bad = any(not e['uri'] for e in entries)
        st = d['state']
        if st[0] == 'damage':
            new = damage_doc(data, st[1], st[2], False, d['index'])
            if new is None:
                data, bad = None, True
            elif new is not False and new != data:
                data = new
                if st[1] == 'wrongcap':
                    cap = re.search(br'capability="([^"]*)"', new).group(1).decode()
                else:
                    bad = True
        self.bad[u] = bad
        self.data[u] = data
        self.seen[u] = (cap, d['index'], seen, links)
        if data is None:
            return
        if self.local:
            write_file(u, data, 1e9)
            self.size[u] = len(data)
            self.mtime[u] = 1e9
        else:
            self.server.docs[u] = data

    def expected(self, uri, e):
        """The types of document that an entry may lead to, None if any may, False if nothing is said about it."""
        cap, index, _, _ = self.seen[uri]
        if e.get('capability'):
            return [e['capability']]
        return self.allowed(cap, index) or False

    @staticmethod
    def allowed(cap, index):
        if cap is None or index and cap == 'capabilitylist':
            return None
        if index:
            return [cap]
        if cap.endswith('-archive'):
            return [cap[:-8]]
        return {'description': ['capabilitylist'], 'capabilitylist': LISTABLE}.get(cap)

    def menu(self, uri):
        """What the menu of a document has: {input: (shown, target, mode, entry)}."""
        if uri not in self.seen or self.bad[uri]:
            return None
        cap, index, entries, links = self.seen[uri]
        out = {}
        for key, rel in (('d', 'describedby'), ('u', 'up'), ('i', 'index')):
            if rel in links:
                h, t = links[rel]
                out[key] = (h, t, 'head' if key == 'd' else 'get', {'expect': None})
        n = len(entries) if len(entries) <= 21 else 20
        for k, e in enumerate(entries[:n]):
            ec = e.get('capability')
            if ec == 'resource' or (ec is None and cap in OF_RESOURCES and not index):
                mode = 'head'
            elif ec is not None or index or cap in ('description', 'capabilitylist'):
                mode = 'get'
            else:
                mode = 'any'
            out[str(k + 1)] = (e['uri'], e['target'], mode, dict(e, expect=self.expected(uri, e)))
        return out


class Session(object):
    """The user, who knows what has to be shown."""

    def __init__(self, world, g, plan, starts):
        self.world, self.g, self.plan = world, g, plan
        self.starts = list(starts)
        self.inputs = list(plan['inputs'])
        self.history = []
        self.cur = self.begin()
        self.fresh = True               # something new is to be shown
        self.over = False
        self.mark = 0
        self.amark = len(world.net.attempts)
        self.fmark = len(world.sim.fault_log)
        self.options = {}
        self.met = False

    def begin(self):
        uri = self.starts.pop(0)
        well_known = self.plan['start'] != 'sitemap' and uri.endswith('/.well-known/resourcesync')
        return (uri, 'get', {'expect': ['description'] if well_known else None})

    def fail(self, text):
        self.world.sim.violations.append(text)
        raise Violation(text)

    def answer(self, prompt=''):
        if self.over:
            self.fail('quit: the session goes on after %s' % self.over)
        out = sys.stdout.getvalue()
        chunk, self.mark = out[self.mark:], len(out)
        made = [a for a in self.world.net.attempts[self.amark:]]
        self.amark = len(self.world.net.attempts)
        faults = self.world.sim.fault_log[self.fmark:]
        self.fmark = len(self.world.sim.fault_log)
        self.world.sim.probe('prompts')
        if self.fresh:
            self.options = self.check_shown(chunk, made, faults)
            self.fresh = False
        else:
            if made:
                self.fail('request: %s was requested after invalid input' % made[0]['host'])
        want = 'Follow [%s%sq(uit)]?' % ('number, ' if self.options else '', 'b(ack), ' if self.history else '')
        if ('number' in prompt) != bool(self.options) or ('b(ack)' in prompt) != bool(self.history):
            self.fail('prompt: %r is asked, expected %r' % (prompt, want))
        # what to type
        if not self.inputs:
            self.over = 'q'
            return 'q'
        kind, arg = self.inputs.pop(0)
        if kind == 'n':
            nums = sorted(k for k in self.options)
            inp = nums[min(int(arg * len(nums)), len(nums) - 1)] if nums else '1'
        else:
            inp = arg
        if inp in self.options:
            shown, target, mode, e = self.options[inp]
            self.history.append(self.cur)
            self.cur = (target, mode, e) if target is not None else (None, shown, e)
            self.fresh = True
            self.world.sim.probe('followed')
        elif inp == 'b':
            self.world.sim.probe('back')
            if self.history:
                self.cur = self.history.pop()
                self.fresh = True
            elif self.starts:
                self.cur = self.begin()
                self.fresh = True
            else:
                self.over = 'b at the first document'
        return inp

    def requested(self, made):
        """The one request of this step, as (method, uri), or None."""
        first = [a for a in made if not a['follow']]
        if len(first) > 1:
            self.fail('request: %d requests for one choice: %s' % (len(first), [a['host'] for a in first]))
        return first[0] if first else None

    def check_shown(self, chunk, made, faults):
        """Compare what was shown with what was delivered; the options that there are."""
        g = self.g
        uri, mode, e = self.cur
        shown = {}
        for m in re.finditer(r"^\[(\w+)\] (?:rel='\w+' link to )?(.*)$", chunk, re.M):
            if m.group(1) in shown:
                self.fail('menu: %s is listed twice' % m.group(0))
            shown[m.group(1)] = m.group(2)
        if uri is None:
            # odd: only the session has to survive
            self.world.sim.probe('odd')
            if shown:
                self.fail('menu: there is a menu for %s: %s' % (mode, shown))
            return {}
        hard = [f for f in faults if f[1]]
        if g.local:
            what = ('GET' if mode == 'get' else 'HEAD' if mode == 'head' else None)
            if made:
                self.fail('request: a web request was made for the local %s' % uri)
        else:
            a = self.requested(made)
            if a is None:
                self.fail('request: nothing was requested for %s' % uri)
            host = a['host'] + ('' if a['port'] == 80 else ':%d' % a['port'])
            got = 'http://%s%s' % (host, a['request'].target) if a['request'] else None
            path = uri if uri.count('/') > 2 else uri + '/'
            if host != uri.split('/')[2] or (got is not None and got != path):
                self.fail('request: %s was requested for %s' % (got or host, uri))
            method = a['request'].method if a['request'] else None
            if method is not None and mode != 'any' and method != mode.upper():
                self.fail('request: %s was asked for with %s, expected %s' % (uri, method, mode.upper()))
            what = method or mode.upper()
            hard = [x['fault'] for x in made if x['fault'] and x['fault'][0] not in BENIGN]
        head = chunk.find('HEAD %s' % uri) >= 0
        if g.local and what is None:
            what = 'HEAD' if head else 'GET'
        if what == 'HEAD':
            if shown:
                self.fail('menu: there is a menu for the resource %s' % uri)
            self.check_head(uri, e, chunk, hard)
            return {}
        menu = g.menu(uri)
        if not hard and menu is None or not shown and hard:
            if shown:
                self.fail('menu: %s cannot be read, but there is a menu: %s' % (uri, shown))
            if 'Cannot' not in chunk and not (hard and menu == {}):
                self.fail('menu: nothing is said about %s, which cannot be read (%r)' % (uri, chunk[:300]))
            self.met = True
            self.world.sim.probe('cannot')
            return {}
        if menu is None:
            self.fail('menu: %s cannot be read, but there is a menu: %s' % (uri, shown))
        want = {k: v[0] for k, v in menu.items()}
        if shown != want:
            d = [k for k in sorted(set(shown) | set(want)) if shown.get(k) != want.get(k)]
            self.fail('menu: of %s has %r as [%s], expected %r' % (uri, shown.get(d[0]), d[0], want.get(d[0])))
        if 'Cannot' in chunk:
            self.fail('menu: %s is said to be unreadable: %r' % (uri, chunk[-300:]))
        self.check_types(uri, e, chunk)
        self.world.sim.probe('menu')
        if menu and self.met:
            self.world.nontrivial = True
        # links that do not lead anywhere are reported while following them
        return menu

    def check_types(self, uri, e, chunk):
        """What is said about the type of the document, and about those of its entries."""
        cap, index, entries, _ = self.g.seen[uri]
        name = (cap or '(unknown capability)') + ('index' if index else '')
        said = 'Parsed %s document with %d entries' % (name, len(entries))
        if said not in chunk:
            self.fail('type: %r is not said about %s, but %r' % (said, uri, chunk[:200]))
        expect = e.get('expect', False)
        if expect is not False and not index:
            warned = 'WARNING - expected a' in chunk
            if warned != (expect is not None and name not in expect):
                self.fail('type: %s is of type %s, expected %s, and there is %s warning about it'
                          % (uri, name, expect, 'a' if warned else 'no'))
            self.world.sim.probe('type_%s' % (expect is not None and not warned))
        if not (index and cap in CAPS[6:10] + ['capabilitylist']) and ('WARNING - unknown' in chunk) != (cap not in CAPS[:10]):
            self.fail('type: type %s of %s is reported as %s' % (
                name, uri, 'unknown' if 'WARNING - unknown' in chunk else 'known'))
        allowed = self.g.allowed(cap, index)
        if allowed is None:
            return
        parts = re.split(r'^\[(\d+)\] ', chunk, flags=re.M)
        for k, text in zip(parts[1::2], parts[2::2]):
            c = entries[int(k) - 1].get('capability')
            wrong = c is not None and c not in allowed
            if wrong != ('(EXPECTED ' in text):
                self.fail('type: entry %s of %s has the type %s where %s are allowed, and it is %sflagged: %r'
                          % (k, uri, c, allowed, '' if not wrong else 'not ', text))
            if c is None and len(allowed) == 1 and 'should be ' + allowed[0] not in text:
                self.fail('type: entry %s of %s has no type, and it is not said that it should be %s: %r'
                          % (k, uri, allowed[0], text))

    def check_head(self, uri, e, chunk, hard):
        g = self.g
        if hard:
            # the response may have been complete all the same
            if 'Cannot' not in chunk and 'status:' not in chunk:
                self.fail('head: nothing is said about %s' % uri)
            self.met = True
            return
        exists = uri in g.size if g.local else (uri in g.server.files or uri in g.server.docs)
        m = re.search(r'status: (\S+)', chunk)
        if not exists:
            self.met = True
            if not re.search('404', chunk.replace(uri, '')):
                self.fail('head: the status 404 of %s is not shown: %r' % (uri, chunk[-200:]))
            return
        if not m or m.group(1) != '200':
            self.fail('head: the status of %s is not shown as 200: %r' % (uri, chunk[-200:]))
        self.world.sim.probe('head')
        for m in re.finditer(r'^  (content-length|last-modified|content-type): (.*?)( MATCHES EXPECTED VALUE| EXPECTED .*)?$',
                             chunk, re.M):
            name, value, verdict = m.group(1), m.group(2), m.group(3) or ''
            stated = e.get({'content-length': 'length', 'last-modified': 'lastmod', 'content-type': 'type'}[name])
            real = self.real(uri, name)
            if real is not None and value != real:
                self.fail('head: %s of %s is shown as %r, but is %r' % (name, uri, value, real))
            if stated is None:
                if verdict:
                    self.fail('head: %s of %s is judged (%s) without a statement in the list' % (name, uri, verdict))
                continue
            if name == 'last-modified':
                try:
                    t = parse_iso(value) if g.local else parsedate_to_datetime(value).timestamp()
                except (ValueError, TypeError):
                    t = None
                if t is None:
                    match = False
                elif g.local:
                    if abs(t - g.mtime[uri]) > 2e-6:
                        self.fail('head: last-modified of %s is shown as %s, but is %r' % (uri, value, g.mtime[uri]))
                    match = abs(t - parse_iso(stated)) < 2e-6
                else:
                    match = int(t) == int(parse_iso(stated))
            else:
                match = value == str(stated)
            self.world.sim.probe('match_%s' % match)
            if match != ('MATCHES' in verdict):
                self.fail('head: %s of %s is %r and the list says %r, but it is reported as%s'
                          % (name, uri, value, stated, verdict or ' nothing'))
        # what is stated and delivered has to be shown
        for name, att in (('content-length', 'length'), ('content-type', 'type'), ('last-modified', 'lastmod')):
            if att in e and self.real(uri, name) is not None and not re.search('^  %s: ' % name, chunk, re.M):
                self.fail('head: %s of %s is not shown' % (name, uri))

    def real(self, uri, name):
        g = self.g
        if g.local:
            return str(g.size[uri]) if name == 'content-length' else None
        if uri in g.server.docs:
            return 'application/xml' if name == 'content-type' else None
        data, ts = g.server.files[uri]
        if name == 'content-type':
            return g.server.ctype[uri]
        if name == 'last-modified':
            i = g.ruri.index(uri)
            lm = g.plan['res'][i]['lm']
            if lm == 'none':
                return None
            if lm != 'ok':
                return {'garbage': 'yesterday or so', 'old': 'Sunday, 06-Nov-94 08:49:37 GMT'}[lm]
            return None
        return None


def none(world, g):
    """Nothing to start from."""
    def fn():
        from resync.explorer import Explorer
        c = Explorer()
        c.set_mappings(['%s=%s' % (g.base, world.p('dst'))])
        c.explore()

    def never(prompt=''):
        world.sim.violations.append('nothing: there is a prompt without any document: %r' % prompt)
        return 'q'
    saved = builtins.input
    builtins.input = never
    try:
        os.makedirs(g.base, exist_ok=True)
        outs = [world.run('explore', fn)]
    finally:
        builtins.input = saved
    outs.append(world.cli('explore', 'resync-explorer', [], stdin=never))
    for r in outs:
        if r.kind != 'error' or r.exc != 'ClientFatalError':
            raise Violation('nothing: without anything to start from the session ended with %s (%s)' % (r.brief(), r.where))
    world.sim.probe('nothing')


def execute(world, plan):
    g = Graph(world, plan)
    world.dirs['docs'] = world.p('docs')
    maps = plan['start'] != 'sitemap'
    starts = [g.duri[0]]
    if plan['start'] == 'mapdoc':
        if not g.local:
            starts.append(g.host + '/.well-known/resourcesync')
    elif maps:
        if g.local:
            starts = [g.base + '/' + n for n in ('resourcesync', 'capabilities.xml', 'resourcelist.xml', 'changelist.xml')
                      if os.path.isfile(g.base + '/' + n)]
        elif g.base != g.host:
            starts.append(g.host + '/.well-known/resourcesync')
    if not starts:
        none(world, g)
        return
    s = Session(world, g, plan, starts)
    # looking for documents in a local directory is not part of the session
    kw = {'net_cfg': plan['net'], 'fs_cfg': None if maps else plan['fs']}
    if plan['driver'] == 'cli' and not maps:
        r = world.cli('explore', 'resync-explorer',
                      ['--sitemap', starts[0]] + (['--verbose'] if plan['verbose'] else []), stdin=s.answer, **kw)
    else:
        def fn():
            from resync.explorer import Explorer
            c = Explorer(verbose=plan['verbose'])
            if maps:
                c.set_mappings(['%s=%s' % (g.base if plan['start'] == 'maps' else g.duri[0], world.p('dst'))])
            else:
                c.sitemap_name = starts[0]
            saved = builtins.input
            builtins.input = s.answer
            try:
                c.explore()
            finally:
                builtins.input = saved
        r = world.run('explore', fn, **kw)
    if not r.ok:
        raise Violation('ended: the session ended with %s (%s)' % (r.brief(), r.where))
    if not s.over:
        raise Violation('ended: the session ended although the user did not quit: %r' % r.stdout[-300:])
    if world.sim.escapes:
        raise Violation('outside: %s' % (world.sim.escapes[:3],))


FINDINGS = {}
SCENARIOS = {}
