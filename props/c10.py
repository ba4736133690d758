"""C10: the inventory of local files is faithful, also while files change."""

import os
import re
import stat

from sim import model
from sim.core import Violation
from sim.fs import write_file, _real
from sim.source import content, digest, parse_iso, read_doc

BUDGET = {'quick': {'runs': 16000, 'wall': 120}, 'thorough': {'runs': 350000, 'wall': 1500}}
RULE = ('one run scans random trees (links, pipes, empty and excluded directories) one to three times while files and '
        'directories appear, vanish, move and change between any two system calls and calls fail; non-trivial if '
        'something changed or failed during a scan')
LISTS = ('files', 'odd', 'exclude', 'scans', 'between')
REAL = 'resync.resource_list_builder, hashes, mapper, resource_list, client.build_resource_list, resync-build, os.walk'
STUBS = 'clock, directory order, faults of the file system, the processes that change files (actions between calls)'
ASSUMPTIONS = ('a file counts as unchanged if neither it nor a directory above it was touched during the scan',
               'lstat() of a symbolic link that exists does not fail',
               'mapped directories are not inside each other',
               'directories are not replaced by links to directories during a scan (race inside os.walk)')

WEIRD = ['b a', 'x\u00fcy', '\u4e2d', 'nl\nx', 'cr\rx', 'ctl\x01', 'tab\t', ' lead', 'trail ', '[1]', 'a\\b', "'", '"', '#f',
         '\U0001f600', 'nfd-u\u0308', '~', '-rf', '.', '..', '...']
DIRS = ['', '', 'd', 'd/e', 'd/e/f', 'D', 'dx', 'excl', 'excl/sub', 'd/excl', 'e f', '.git', 'long' * 12, 'b']
PATTERNS = ['excl', 'excl$', r'\.', r'.*\.bak$', 'a$', 'd$', 'b', r'.*x', 'never', r'.*\d', '', '/.*/d/', r'[^a-z]', 'res1']
ACTIONS = ['new', 'new', 'mod', 'mod', 'swap', 'rm', 'rm', 'mvfile', 'rmtree', 'mvdir', 'mkdir', 'f2d', 'd2f', 'f2l']


def plan(rng, tier):
    nmap = rng.choice([1, 1, 2, 3])
    files, seen = [], {}
    for _ in range(rng.choice([0, 1, 3, 6, 10, 16])):
        m = rng.randrange(nmap)
        d = rng.choice(DIRS)
        n = rng.choice([x for x in WEIRD if x not in ('.', '..')]) if rng.random() < 0.12 else \
            rng.choice(model.NAMES + ['x.bak', 'excl', 'excluded.txt'])
        rel = (d + '/' if d else '') + n
        if any(o == rel or o.startswith(rel + '/') or rel.startswith(o + '/') for o in seen.get(m, ())):
            continue
        seen.setdefault(m, []).append(rel)
        files.append([m, rel, model.pick_size(rng, 0.15), -86400.25 if rng.random() < 0.02 else round(model.gen_ts(rng), 6), rng.randrange(1000)])
    odd = []
    for i in range(rng.choice([0, 0, 1, 2, 4])):
        odd.append([rng.randrange(nmap), rng.choice(DIRS), 'odd%d' % i,
                    rng.choice(['flink', 'dlink', 'dangling', 'loop', 'fifo', 'empty', 'hard', 'up'])])
    kind = rng.choice(['api', 'api', 'extend', 'client', 'cli'])
    scans = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        paths = None
        if rng.random() < 0.25:
            paths = [rng.choice([[rng.randrange(nmap), ''], [rng.randrange(nmap), rng.choice(DIRS)],
                                 [rng.randrange(nmap), 'no/such'], ['file', rng.random()]]) for _ in range(rng.choice([1, 2]))]
        f = {}
        if rng.random() < 0.45:
            f = {'p': rng.choice([0.02, 0.1, 0.3]), 'short': rng.random() < 0.5,
                 'only': ['m0', 'm1', 'm2'],
                 'calls': rng.choice([['open'], ['read'], ['stat'], ['scandir'], ['readdir'],
                                      ['open', 'read', 'stat', 'scandir', 'readdir']])}
        scans.append({'paths': paths, 'fs': f, 'env': rng.choice([0, 0, 0.02, 0.08, 0.25]),
                      'jump': rng.random() < 0.1})
    if kind != 'cli' and rng.random() < 0.8:
        ex = rng.choice([[], [], ['excl'], [rng.choice(PATTERNS)], rng.sample(PATTERNS, 2)])
    else:
        ex = rng.choice([[], [rng.choice(PATTERNS)], rng.sample(PATTERNS, 3)])
    return {'nmap': nmap, 'files': files, 'odd': odd, 'kind': kind, 'scans': scans, 'exclude': ex, 'checksum': rng.random() < 0.5,
            'hashes': model.gen_hashes(rng), 'set_path': rng.random() < 0.3, 'set_length': rng.random() < 0.85,
            'toplink': rng.random() < 0.1, 'slash': rng.random() < 0.15,
            'rel': rng.random() < 0.1, 'between': [[rng.choice(ACTIONS), round(rng.random(), 4), round(rng.random(), 4)]
                                                  for _ in range(rng.choice([0, 2, 5]))]}


class Tree(object):
    """The real tree and what was done to it."""

    def __init__(self, world, plan):
        self.world = world
        self.tops = [world.p('m%d' % i) for i in range(plan['nmap'])]
        self.n = 0
        self.reset()

    def reset(self):
        self.touched = set()        # paths of files and directories that were made, changed, moved, or removed
        self.ever = {}              # path of a regular file -> set of (size, mtime)
        self.links = set()
        self.changes = 0
        for p in self.walk():
            self.note(p)

    def walk(self):
        out = []
        for top in self.tops:
            stack = [top]
            while stack:
                d = stack.pop()
                try:
                    with _real['scandir'](d) as it:
                        es = sorted(it, key=lambda e: e.name)
                except OSError:
                    continue
                for e in es:
                    out.append(e.path)
                    if e.is_dir(follow_symlinks=False):
                        stack.append(e.path)
        return sorted(out)

    def note(self, p):
        st = _real['lstat'](p)
        if stat.S_ISREG(st.st_mode):
            self.ever.setdefault(p, set()).add((st.st_size, st.st_mtime))
        elif stat.S_ISLNK(st.st_mode):
            self.links.add(p)

    def kinds(self):
        f, d = [], []
        for p in self.walk():
            m = _real['lstat'](p).st_mode
            if stat.S_ISREG(m):
                f.append(p)
            elif stat.S_ISDIR(m):
                d.append(p)
        return f, d

    def touch(self, p):
        self.touched.add(p)
        self.changes += 1

    def below(self, p):
        return [p] + [q for q in self.walk() if q.startswith(p + '/')]

    def write(self, p, size):
        self.n += 1
        now = self.world.sim.now
        if os.path.lexists(p) and _real['lstat'](p).st_nlink > 1:
            return      # not through a hard link
        write_file(p, content(7000 + self.n, size), round(now - 1000 + self.n * 0.25, 6))
        self.touch(p)
        self.note(p)

    def act(self, a, x, y):
        files, dirs = self.kinds()
        tops = [t for t in self.tops if os.path.isdir(t)]
        at = lambda l, f: l[min(int(f * len(l)), len(l) - 1)] if l else None
        self.n += 1
        f, d = at(files, x), at(dirs, x)
        td = at(sorted(dirs + tops), y)
        if td is None or len(td) > 800:
            return
        new = '%s/%s%d' % (td, ['n', 'zz', '.h', 'a'][self.n % 4], self.n)
        if a == 'new':
            self.write(new, self.n * 37 % 4000)
        elif a == 'mkdir':
            self.write(new + '/x', 10)
            self.write(new + '/y', 20)
            self.touch(new)
        elif a in ('mod', 'swap') and f:
            if a == 'swap' and os.path.lexists(f):
                _real['unlink'](f)
                self.touch(f)
            self.write(f, _real['stat'](f).st_size + 1 if os.path.exists(f) else self.n * 11)
        elif a == 'rm' and f:
            _real['unlink'](f)
            self.touch(f)
        elif a == 'mvfile' and f:
            _real['rename'](f, new)
            self.touch(f)
            self.touch(new)
            self.note(new)
        elif a == 'f2d' and f:
            _real['unlink'](f)
            self.touch(f)
            self.write(f + '/in', 5)
        elif a == 'f2l' and f:
            g = at(files, y)
            if g and g != f:
                _real['unlink'](f)
                _real['symlink'](g, f)
                self.touch(f)
                self.links.add(f)
                self.ever.setdefault(f, set())
        elif a in ('rmtree', 'd2f') and d:
            for q in reversed(self.below(d)):
                self.touch(q)
                if os.path.isdir(q) and not os.path.islink(q):
                    _real['rmdir'](q)
                else:
                    _real['unlink'](q)
            if a == 'd2f':
                self.write(d, 17)
        elif a == 'mvdir' and d and not (td + '/').startswith(d + '/'):
            for q in self.below(d):
                self.touch(q)
            _real['rename'](d, new)
            for q in self.below(new):
                self.touch(q)
                self.note(q)

    def unchanged(self, p):
        if p in self.touched:
            return False
        while len(p) > 1:
            p = os.path.dirname(p)
            if p in self.touched:
                return False
        return True


def make(world, plan, t):
    for i, top in enumerate(t.tops):
        if plan['toplink']:
            _real['makedirs'](world.p('real%d' % i))
            _real['symlink'](world.p('real%d' % i), top)
        else:
            _real['makedirs'](top)
        world.dirs['m%d' % i] = top
    for m, rel, size, ts, cid in plan['files']:
        m %= len(t.tops)
        p = t.tops[m] + '/' + rel
        if not os.path.lexists(p) and model._can_make(p, t.tops[m]):
            write_file(p, content(cid, size), ts)
    write_file(world.p('outside/file'), b'outside', 1e9)
    for m, d, name, kind in plan['odd']:
        top = t.tops[m % len(t.tops)]
        p = os.path.join(top, d, name)
        if not model._can_make(p, top):
            continue
        _real['makedirs'](os.path.dirname(p), exist_ok=True)
        if kind == 'flink':
            _real['symlink'](world.p('outside/file'), p)
        elif kind == 'dlink':
            _real['symlink'](world.p('outside'), p)
        elif kind == 'dangling':
            _real['symlink']('nowhere', p)
        elif kind == 'loop':
            _real['symlink'](name, p)
        elif kind == 'up':
            _real['symlink']('..', p)
        elif kind == 'fifo':
            _real['mkfifo'](p)
        elif kind == 'empty':
            _real['makedirs'](p)
        elif kind == 'hard':
            _real['link'](world.p('outside/file'), p)


def under(p, top):
    return p == top or p.startswith(top + '/')


def execute(world, plan):
    sim = world.sim
    from resync.mapper import Mapper
    t = Tree(world, plan)
    make(world, plan, t)
    bases = ['http://example.org/data', 'http://example.org', 'http://example.org:81/x.y']
    slash = '/' if plan['slash'] else ''
    if plan['rel']:
        # directories given relative to the working directory
        args = ['%s=../%s%s' % (bases[i], os.path.basename(p), slash) for i, p in enumerate(t.tops)]
    else:
        args = ['%s=%s%s' % (bases[i], p, slash) for i, p in enumerate(t.tops)]
    kind = plan['kind']
    if kind == 'cli':
        # names that XML can express
        for p in t.walk():
            if any(ord(c) < 32 and c not in '\t\n' for c in p) and os.path.lexists(p) and not os.path.isdir(p):
                _real['unlink'](p)

    def rel(p):
        return '../' + os.path.relpath(p, world.root) if plan['rel'] else p
    for k, sc in enumerate(plan['scans']):
        op = 'scan%d' % k
        if k:
            sim.op = 'between%d' % k
            sim.advance(100.7)
            for a in plan['between']:
                t.act(*a)
        t.reset()
        sim.op = op
        paths = None
        if sc['paths'] is not None:
            paths = []
            for m, d in sc['paths']:
                if m == 'file':
                    fs = t.kinds()[0]
                    p = fs[min(int(d * len(fs)), len(fs) - 1)] if fs else t.tops[0]
                else:
                    p = os.path.join(t.tops[m % len(t.tops)], d) if d else t.tops[m % len(t.tops)]
                if not any(under(p, q) or under(q, p) for q in paths) and ',' not in p:
                    paths.append(p)
            if not paths:
                paths = None
        starts = paths if paths is not None else list(t.tops)
        span = [None, None]

        def hook(sim, what, detail):
            if any(str(detail).split(' ')[0].startswith(x + '/') or str(detail) == x for x in t.tops):
                if span[0] is None:
                    span[0] = sim.now
                span[1] = sim.now
            if sc['env']:
                a = sim.choose('env', None, lambda r: [r.choice(ACTIONS), round(r.random(), 4), round(r.random(), 4)]
                               if r.random() < sc['env'] else None)
                if a is not None:
                    sim.event('env', a)
                    t.act(*a)
                    sim.fault('change_' + a[0])
        fl = len(sim.fault_log)
        pre = set(t.kinds()[0])
        sim.on_point = hook
        out = world.p('out.xml')
        try:
            if kind == 'cli':
                a = ['--write-resourcelist', '--outfile', out]
                for h in plan['hashes']:
                    a += ['--checksum'] if h == 'md5' and plan.get('checksum') else ['--hash', h]
                for x in plan['exclude']:
                    a.append('--exclude=' + x)
                if paths is not None:
                    a += ['--paths', ','.join(rel(p) for p in paths)]
                r = world.cli(op, 'resync-build', a + args, fs_cfg=sc['fs'])
            else:
                r = world.run(op, lambda: scan(plan, kind, args, None if paths is None else [rel(p) for p in paths]),
                              fs_cfg=sc['fs'])
        finally:
            sim.on_point = None
        sim.op = op + 'check'
        if r.kind == 'error' and r.exc in ('ClientFatalError', 'SystemExit') and 'regex' in r.msg:
            raise Violation('patterns: refused: %s' % r.msg)
        if not r.ok:
            raise Violation('failed: the scan ended with %s (%s)' % (r.brief(), r.where))
        if kind == 'cli':
            d = read_doc(_real['open'] and open(out, 'rb').read())
            got, at, completed = [], d['md'].get('at'), d['md'].get('completed')
            for e in d['entries']:
                hs = dict(x.split(':', 1) for x in e['md'].get('hash', '').split())
                got.append((e['uri'], parse_iso(e['lastmod']), int(e['md']['length']) if 'length' in e['md'] else None,
                            hs.get('md5'), hs.get('sha-1'), hs.get('sha-256'), e['md'].get('path')))
        else:
            got, at, completed = r.value
        check(world, plan, t, r, got, args, bases, starts, paths, sim.fault_log[fl:], pre, rel)
        if at is None or completed is None:
            raise Violation('times: at=%s completed=%s' % (at, completed))
        if parse_iso(at) > (span[0] or r.t1) + 1e-5 or parse_iso(at) < r.t0 - 1:
            raise Violation('times: the scan began at %.4f, the list says %s' % ((span[0] or 0) - sim.t0, at))
        if parse_iso(completed) < (span[1] or r.t0) - 1e-5 and kind != 'cli' or parse_iso(completed) > r.t1 + 1e-5:
            raise Violation('times: the scan ended at %.4f, the list says %s' % ((span[1] or 0) - sim.t0, completed))
        if t.changes or len(sim.fault_log) > fl:
            world.nontrivial = True


def scan(plan, kind, args, paths):
    from resync.client import Client
    from resync.mapper import Mapper
    from resync.resource_list import ResourceList
    from resync.resource_list_builder import ResourceListBuilder
    if kind == 'client':
        c = Client(hashes=list(plan['hashes']))
        c.set_mappings(args)
        c.exclude_patterns = list(plan['exclude'])
        rl = c.build_resource_list(paths=None if paths is None else ','.join(paths), set_path=plan['set_path'])
    else:
        b = ResourceListBuilder(mapper=Mapper(args), set_hashes=list(plan['hashes']), set_path=plan['set_path'],
                                set_length=plan['set_length'])
        for x in plan['exclude']:
            b.add_exclude_patterns([x])
        if kind == 'extend':
            rl = ResourceList()
            for p in (paths if paths is not None else [m.dst_path for m in b.mapper.mappings]):
                b.from_disk(resource_list=rl, paths=[p])
        elif paths is None:
            rl = b.from_disk()
        else:
            rl = b.from_disk(paths=paths)
    return ([(r.uri, r.timestamp, r.length, r.md5, r.sha1, r.sha256, r.path) for r in rl], rl.md_at, rl.md_completed)


def excluded(plan, p, start, paths, rel):
    """True if p, found below start, matches the patterns."""
    pats = [re.compile(x) for x in plan['exclude']]
    if p == start:
        return any(x.match(rel(p)) for x in pats)
    return any(x.match(c) for c in p[len(start) + 1:].split('/') for x in pats)


def check(world, plan, t, r, got, args, bases, starts, paths, faults, pre, rel):
    top_of = dict(zip(t.tops, bases))
    by_path, uris = {}, set()
    sep = {b: top for top, b in top_of.items()}
    for g in got:
        if g[0] in uris:
            raise Violation('twice: %s is listed twice' % g[0])
        uris.add(g[0])
        path = None
        for b in sorted(sep, key=len, reverse=True):
            if g[0].startswith(b + '/'):
                cand = sep[b] + g[0][len(b):]
                if path is None or cand in t.ever and path not in t.ever:
                    path = cand
        if path is None:
            raise Violation('uri: %s is not below a mapped base' % g[0])
        by_path[path] = g
    hs = plan['hashes']
    length = plan['set_length'] or plan['kind'] in ('client', 'cli')
    for p, g in sorted(by_path.items()):
        start = [s for s in starts if under(p, s)]
        if p not in t.ever:
            what = 'is a symbolic link' if p in t.links else 'was never a regular file'
            raise Violation('extra: %s is listed, which %s' % (g[0], what))
        if not start:
            raise Violation('extra: %s is listed, which is not below the scanned paths' % g[0])
        if all(excluded(plan, p, s, paths, rel) for s in start):
            raise Violation('excluded: %s is listed although excluded by %s' % (g[0], plan['exclude']))
        if (g[2] is not None) != length:
            raise Violation('length: %s has length %s' % (g[0], g[2]))
        if p not in t.links and not any(round(m, 6) == round(g[1], 6) and (g[2] is None or n == g[2])
                                        for n, m in t.ever[p]):
            raise Violation('entry: %s has length %s and time %s, the file had %s' % (g[0], g[2], g[1], sorted(t.ever[p])))
        for h, v in (('md5', g[3]), ('sha-1', g[4]), ('sha-256', g[5])):
            if (v is not None) != (h in hs):
                raise Violation('digest: %s has %s=%s with %s requested' % (g[0], h, v, hs))
    bad = set()
    for _, _, kind, detail in faults:
        if '@' in kind:
            bad.add(detail.split(' (')[0])
    for p in sorted(pre):
        if not t.unchanged(p) or p in t.links or not os.path.lexists(p):
            continue
        start = [s for s in starts if under(p, s)]
        if not start or all(excluded(plan, p, s, paths, rel) for s in start):
            continue
        chain = [p]
        while chain[-1] not in starts:
            chain.append(os.path.dirname(chain[-1]))
        with open(p, 'rb') as f:
            data = f.read()
        st = _real['stat'](p)
        g = by_path.get(p)
        if g is None:
            hit = [c for c in chain if c in bad]
            if not hit:
                raise Violation('missing: %s is not listed; it was there all the time, and nothing failed'
                                % p.replace(world.root, ''))
            if chain[-1] in hit and excluded(plan, chain[-1], chain[-1], paths, rel):
                continue        # taken for an excluded file, as its kind could not be found out
            if not any(rel(c) in msg for c in hit for msg in r.messages(30)):
                raise Violation('silent: %s is left out after a failure without a warning' % p.replace(world.root, ''))
            world.sim.probe('left out')
            continue
        b = [x for x in t.tops if under(p, x)][0]
        want = (top_of[b] + p[len(b):], round(st.st_mtime, 6), len(data) if length else None) + \
            tuple(digest(data, h) if h in hs else None for h in ('md5', 'sha-1', 'sha-256'))
        have = (g[0], round(g[1], 6)) + g[2:6]
        if have != want:
            raise Violation('entry: %s instead of %s' % (have, want))
        if plan['kind'] != 'cli':
            if plan['set_path'] and (g[6] is None or os.path.normpath(os.path.join(world.cwd, g[6])) != p) or \
                    not plan['set_path'] and g[6] is not None:
                raise Violation('path: %s has path %s' % (g[0], g[6]))
        world.sim.probe('listed')
