"""File-system seam.

The code under test runs against real files below a scratch directory, but every
call passes through here: it is logged, it can fail, be torn, or be the point where
the process dies, and times and directory order are the simulator's. A call that
would change anything outside the scratch directory is recorded and refused.
"""

import builtins
import errno
import io
import os
import stat as stat_mod

from .core import SimCrash, SimHang

SIM = None           # the current Sim, or None

_real = {}
for _n in ('open', 'stat', 'lstat', 'unlink', 'remove', 'mkdir', 'rmdir', 'rename',
           'replace', 'utime', 'scandir', 'listdir', 'link', 'symlink', 'truncate',
           'chmod', 'close', 'write', 'fsync', 'ftruncate', 'getpid', 'urandom',
           'makedirs', 'walk', 'chown', 'mkfifo', 'mknod', 'fdatasync', 'readlink',
           'lchown', 'setxattr', 'removexattr', 'sendfile', 'copy_file_range',
           'pwrite', 'writev', 'chdir', 'system', 'fork', 'posix_spawn', 'kill'):
    if hasattr(os, _n):
        _real[_n] = getattr(os, _n)
real_open = io.open
_fds = {}

ERR = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES,
       'emfile': errno.EMFILE, 'edquot': errno.EDQUOT, 'erofs': errno.EROFS,
       'estale': errno.ESTALE}

WRITE_ERRS = ('enospc', 'eio', 'edquot')
READ_ERRS = ('eio', 'estale')
OPEN_R_ERRS = ('eacces', 'eio', 'emfile')
OPEN_W_ERRS = ('eacces', 'enospc', 'emfile', 'erofs')
META_ERRS = ('eacces', 'eio', 'erofs')


def active():
    s = SIM
    return s is not None and s.proc is not None


def path_of(p, dir_fd=None):
    """Absolute path, or None for a file descriptor."""
    if isinstance(p, int):
        return None
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if dir_fd is not None:
        p = os.path.join(_real['readlink']('/proc/self/fd/%d' % dir_fd), p)
    return os.path.abspath(p)


def inside(path):
    return path == SIM.root or path.startswith(SIM.root + '/')


def _oserror(code, path=None):
    """As the system reports it: reads and writes without name, others with the name as given."""
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), path)


def fault_for(kind, path, names, chooser='fs'):
    """Decide on a fault for this call, return an errno name or None."""
    s = SIM
    p = s.proc
    cfg = p.fs
    if not cfg:
        return None
    cls = s.classify(path)
    only = cfg.get('only')
    if only is not None and cls not in only:
        return None
    if p.disk_full and kind in ('write', 'openw', 'mkdir'):
        s.fault('disk_full', '%s %s' % (kind, path))
        return 'enospc'
    kinds = cfg.get('kinds')
    ok = [n for n in names if kinds is None or n in kinds]
    calls = cfg.get('calls')
    if not ok or (calls is not None and kind not in calls):
        return None
    if p.faults_left <= 0 and not s.replay:
        # keep the numbering of decisions in step
        s.counts[s.op + '|' + chooser + ':' + kind] += 1
        return None
    prob = cfg.get('p', 0.0)

    def pick(rng):
        if rng.random() >= prob:
            return None
        return rng.choice(ok)
    f = s.choose(chooser + ':' + kind, None, pick)
    if f is None:
        return None
    p.faults_left -= 1
    if f == 'enospc' and cfg.get('sticky_full'):
        p.disk_full = True
    s.fault(f + '@' + kind, path)
    return f


def _stamp(path_or_fd):
    t = int(SIM.local_time() * 1000000) * 1000
    try:
        _real['utime'](path_or_fd, ns=(t, t))
    except OSError:
        pass


def _mutate(kind, path, perform, errs=META_ERRS, extra='', given=None):
    """A mutating call on path. perform() does it for real."""
    s = SIM
    if path is None or not inside(path):
        s.event('ESCAPE', '%s %s' % (kind, path))
        s.escapes.append((kind, path))
        raise _oserror(errno.EACCES, path)
    s.point(kind, path + extra)
    crash = s.crash_here()
    if crash in ('before', 'torn'):
        s.die('%s %s %s' % (crash, kind, path))
    if crash == 'sigint':
        s.interrupt('%s %s' % (kind, path))
    f = fault_for(kind, path, errs)
    if f is not None:
        raise _oserror(ERR[f], path if given is None else given)
    r = perform()
    s.proc.effects.append((kind, path))
    if crash == 'after':
        s.die('after %s %s' % (kind, path))
    return r


class SimRaw(io.FileIO):
    """Raw file with seams for read, write, truncate and close."""

    def __init__(self, path, mode, **kw):
        self._simpath = path if isinstance(path, str) else str(path)
        self._sim = SIM
        self._proc = SIM.proc
        self._wrote = False
        self._lost = None
        self._next = None       # error of the next write, after a torn one
        super().__init__(path, mode, **kw)

    def _mine(self):
        return SIM is self._sim and SIM.proc is self._proc and self._proc is not None

    def readinto(self, b):
        if not self._mine():
            return super().readinto(b)
        SIM.point('read', self._simpath)
        f = fault_for('read', self._simpath, READ_ERRS)
        if f is not None:
            raise _oserror(ERR[f])
        if len(b) > 1 and self._proc.fs.get('short'):
            n = SIM.choose('shortread', 0, lambda r: r.randint(1, len(b)) if r.random() < 0.2 else 0)
            if n:
                return super().readinto(memoryview(b)[:n])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        chunks = []
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return b''.join(chunks)
            chunks.append(bytes(b[:n]))

    def write(self, b):
        if self._proc.dead or not self._mine():
            # data still buffered in a process that is gone is lost
            return len(b)
        s = SIM
        path = self._simpath
        s.point('write', '%s %d' % (path, len(b)))
        crash = s.crash_here()
        if crash == 'before':
            s.die('before write %s' % path)
        if crash == 'sigint':
            s.interrupt('write %s' % path)
        if crash == 'torn':
            n = len(b) // 2
            if n:
                super().write(memoryview(b)[:n])
                _stamp(self.fileno())
            s.die('torn write %s' % path)
        if self._next is not None:
            f, self._next = self._next, None
            raise _oserror(ERR[f])
        f = fault_for('write', path, WRITE_ERRS)
        if f is not None:
            n = SIM.choose('torn', 0, lambda r: r.randint(0, max(0, len(b) - 1)))
            if n:
                # as write(2) does: what fits is written, the error comes with the rest
                self._next = f
                n = super().write(memoryview(b)[:n])
                _stamp(self.fileno())
                s.proc.effects.append(('write', path))
                return n
            raise _oserror(ERR[f])
        view = b
        if len(b) > 1 and self._proc.fs.get('short'):
            n = SIM.choose('shortwrite', 0, lambda r: r.randint(1, len(b)) if r.random() < 0.2 else 0)
            if n and n < len(b):
                view = memoryview(b)[:n]
                s.probe('short_write')
        self._lost = self.tell() if not self.closed else None
        n = super().write(view)
        self._wrote = True
        _stamp(self.fileno())
        s.proc.effects.append(('write', path))
        if crash == 'after':
            s.die('after write %s' % path)
        return n

    def truncate(self, size=None):
        if not self._mine():
            return super().truncate(size)
        r = _mutate('truncate', self._simpath, lambda: io.FileIO.truncate(self, size), WRITE_ERRS)
        _stamp(self.fileno())
        return r

    def close(self):
        if self.closed:
            return
        if not self._wrote or not self._mine() or self._proc.dead:
            return super().close()
        s = SIM
        f = None
        try:
            s.point('close', self._simpath)
            f = fault_for('close', self._simpath, ('eio', 'edquot'))
            if f is not None and self._lost is not None:
                # delayed allocation failed: the last block never got there
                _real['ftruncate'](self.fileno(), self._lost)
                _stamp(self.fileno())
        finally:
            super().close()
        if f is not None:
            raise _oserror(ERR[f])


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if not active():
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    s = SIM
    writing = any(c in mode for c in 'wax+')
    path = path_of(file)
    if path is None:
        path = _fds.get(file)
        if path is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif not inside(path):
        if writing:
            if path == '/dev/null':
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            s.event('ESCAPE', 'openw %s' % path)
            s.escapes.append(('openw', path))
            raise _oserror(errno.EACCES, path)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = ''.join(c for c in mode if c in 'rwax+')
    binary = 'b' in mode
    kw = {'closefd': closefd}
    if opener is not None:
        kw['opener'] = opener
    if writing and not isinstance(file, int):
        made = []

        def perform():
            # An existing file that is truncated loses its content here
            made.append(SimRaw(path, rawmode, **kw))
            if 'w' in mode or 'x' in mode:
                _stamp(made[0].fileno())
            made[0]._wrote = True
        try:
            _mutate('openw', path, perform, OPEN_W_ERRS, ' ' + mode, file)
        except SimCrash:
            if made:
                io.FileIO.close(made[0])
            raise
        raw = made[0]
    else:
        if not isinstance(file, int):
            s.point('open', path)
            f = fault_for('open', path, OPEN_R_ERRS)
            if f is not None:
                raise _oserror(ERR[f], file)
        if not isinstance(file, int) and _is_fifo(path):
            # nobody ever writes to it
            s.event('FIFO', path)
            s.proc.dead = True
            raise SimHang('waits forever for a writer of the pipe %s' % path)
        raw = SimRaw(file if isinstance(file, int) else path, rawmode, **kw)
        raw._simpath = path
        raw._wrote = writing
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else 8192
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    if encoding in (None, 'locale'):
        encoding = s.encoding
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


# -- os functions ------------------------------------------------------------

def _stat_like(name):
    real = _real[name]

    def f(path, *args, **kw):
        if not active():
            return real(path, *args, **kw)
        p = path_of(path, kw.get('dir_fd'))
        if p is None or not inside(p):
            return real(path, *args, **kw)
        SIM.point(name, p)
        e = fault_for(name, p, ('eio', 'eacces'))
        if e is not None:
            raise _oserror(ERR[e], path)
        return real(path, *args, **kw)
    f.__name__ = name
    return f


def _one_path(name, errs=META_ERRS, kind=None):
    real = _real[name]
    kind = kind or name

    def f(path, *args, **kw):
        if not active():
            return real(path, *args, **kw)
        p = path_of(path, kw.get('dir_fd'))
        if p is None:
            p = _fds.get(path)
        return _mutate(kind, p, lambda: real(path, *args, **kw), errs, given=path)
    f.__name__ = name
    return f


def _two_paths(name):
    real = _real[name]

    def f(src, dst, *args, **kw):
        if not active():
            return real(src, dst, *args, **kw)
        p = path_of(src, kw.get('src_dir_fd'))
        q = path_of(dst, kw.get('dst_dir_fd'))
        if name == 'symlink':
            p = q
        for x in (p, q):
            if x is None or not inside(x):
                SIM.event('ESCAPE', '%s %s' % (name, x))
                SIM.escapes.append((name, x))
                raise _oserror(errno.EACCES, x)
        r = _mutate(name, q, lambda: real(src, dst, *args, **kw), META_ERRS + ('enospc',),
                    ' <- ' + p)
        SIM.proc.effects.append((name + '_from', p))
        return r
    f.__name__ = name
    return f


def _real_isdir(p):
    try:
        return stat_mod.S_ISDIR(_real['stat'](p).st_mode)
    except OSError:
        return False


def _is_fifo(p):
    try:
        return stat_mod.S_ISFIFO(_real['stat'](p).st_mode)
    except OSError:
        return False


def sim_mkdir(path, mode=0o777, *, dir_fd=None):
    if not active():
        return _real['mkdir'](path, mode, dir_fd=dir_fd)
    p = path_of(path, dir_fd)
    if p is not None and not inside(p) and _real_isdir(p):
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
    return _mutate('mkdir', p, lambda: _real['mkdir'](path, mode, dir_fd=dir_fd),
                   ('eacces', 'enospc', 'eio', 'erofs'))


class SimScandir(object):
    def __init__(self, path, entries, given):
        self.path = path
        self.given = given
        self.entries = entries
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.entries):
            raise StopIteration
        if active() and SIM.proc.fs:
            e = fault_for('readdir', self.path, READ_ERRS)
            if e is not None:
                raise _oserror(ERR[e], self.given)
        self.i += 1
        return self.entries[self.i - 1]

    def close(self):
        self.i = len(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def _order(entries, key):
    entries = sorted(entries, key=key)
    if len(entries) > 1:
        seed = SIM.choose('dirorder', 0, lambda r: r.randint(1, 99999) if r.random() < 0.7 else 0)
        if seed:
            import random
            random.Random(seed).shuffle(entries)
    return entries


def sim_scandir(path='.'):
    if not active() or isinstance(path, (int, bytes)):
        return _real['scandir'](path)
    p = path_of(path)
    if not inside(p):
        return _real['scandir'](path)
    SIM.point('scandir', p)
    e = fault_for('scandir', p, OPEN_R_ERRS)
    if e is not None:
        raise _oserror(ERR[e], path)
    with _real['scandir'](path) as it:
        entries = list(it)
    return SimScandir(p, _order(entries, lambda d: d.name), path)


def sim_listdir(path='.'):
    if not active() or isinstance(path, (int, bytes)):
        return _real['listdir'](path)
    p = path_of(path)
    if not inside(p):
        return _real['listdir'](path)
    SIM.point('scandir', p)
    e = fault_for('scandir', p, OPEN_R_ERRS)
    if e is not None:
        raise _oserror(ERR[e], path)
    return _order(_real['listdir'](path), lambda n: n)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not active():
        return _real['open'](path, flags, mode, dir_fd=dir_fd)
    p = path_of(path, dir_fd)
    mut = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if not inside(p) and not mut:
        return _real['open'](path, flags, mode, dir_fd=dir_fd)
    if p == '/dev/null':
        return _real['open'](path, flags, mode, dir_fd=dir_fd)
    if mut:
        fd = _mutate('openw', p, lambda: _real['open'](path, flags, mode, dir_fd=dir_fd),
                     OPEN_W_ERRS)
        if flags & (os.O_CREAT | os.O_TRUNC):
            _stamp(fd)
    else:
        SIM.point('open', p)
        e = fault_for('open', p, OPEN_R_ERRS)
        if e is not None:
            raise _oserror(ERR[e], p)
        fd = _real['open'](path, flags, mode, dir_fd=dir_fd)
    _fds[fd] = p
    return fd


def sim_os_close(fd):
    _fds.pop(fd, None)
    return _real['close'](fd)


def _fd_write(name):
    real = _real[name]

    def f(fd, *args, **kw):
        if not active() or fd not in _fds:
            return real(fd, *args, **kw)
        r = _mutate('write', _fds[fd], lambda: real(fd, *args, **kw), WRITE_ERRS)
        _stamp(fd)
        return r
    f.__name__ = name
    return f


def _forbidden(name):
    real = _real[name]

    def f(*args, **kw):
        if not active():
            return real(*args, **kw)
        SIM.event('ESCAPE', name)
        SIM.escapes.append((name, repr(args)[:200]))
        raise PermissionError(errno.EPERM, 'refused by the simulator: ' + name)
    f.__name__ = name
    return f


def sim_getpid():
    if not active():
        return _real['getpid']()
    return SIM.proc.pid


def sim_urandom(n):
    if not active():
        return _real['urandom'](n)
    return bytes(SIM.rng_urandom.getrandbits(8) for _ in range(n))


def install():
    """Put the seams in place (once per real process)."""
    builtins.open = sim_open
    # the interpreter's UTF-8 mode must not decide about the simulated locale
    io.text_encoding = lambda encoding, stacklevel=2: 'locale' if encoding is None else encoding
    io.open = sim_open
    os.open = sim_os_open
    os.close = sim_os_close
    os.stat = _stat_like('stat')
    os.lstat = _stat_like('lstat')
    os.unlink = _one_path('unlink')
    os.remove = _one_path('remove', kind='unlink')
    os.rmdir = _one_path('rmdir')
    os.mkdir = sim_mkdir
    os.utime = _one_path('utime')
    os.truncate = _one_path('truncate', WRITE_ERRS)
    os.chmod = _one_path('chmod')
    os.chown = _one_path('chown')
    os.rename = _two_paths('rename')
    os.replace = _two_paths('replace')
    os.link = _two_paths('link')
    os.symlink = _two_paths('symlink')
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.write = _fd_write('write')
    os.ftruncate = _fd_write('ftruncate')
    os.getpid = sim_getpid
    os.urandom = sim_urandom
    for n in ('system', 'fork', 'posix_spawn', 'kill', 'mkfifo', 'mknod', 'chdir'):
        if n in _real:
            setattr(os, n, _forbidden(n))


def write_file(path, data, mtime=None):
    """Harness helper: write a real file with the given time, no seams."""
    d = os.path.dirname(path)
    _real['makedirs'](d, exist_ok=True)
    with real_open(path, 'wb') as f:
        f.write(data)
    if mtime is not None:
        t = int(round(mtime * 1000000)) * 1000
        _real['utime'](path, ns=(t, t))


def read_file(path):
    with real_open(path, 'rb') as f:
        return f.read()


def tree(top):
    """{relative path: (bytes, mtime in s)} for files, {'path/': None} for directories."""
    out = {}
    if not os.path.isdir(top):
        return out
    stack = ['']
    while stack:
        rel = stack.pop()
        with _real['scandir'](os.path.join(top, rel) if rel else top) as it:
            for e in it:
                r = rel + '/' + e.name if rel else e.name
                if e.is_symlink():
                    out[r] = ('symlink', _real['readlink'](e.path))
                elif e.is_dir():
                    out[r + '/'] = None
                    stack.append(r)
                else:
                    st = _real['stat'](e.path)
                    out[r] = (read_file(e.path), st.st_mtime_ns / 1e9)
    return out
