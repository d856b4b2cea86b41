"""The seams between xlrd and everything nondeterministic: files, mappings, clocks, locks, standard
streams.  install() replaces the entry points once, before xlrd is imported, by wrappers which
delegate to the real thing unless a World is current and the path lies in its scratch directory.

A World counts every system call xlrd makes on its files and, on chosen ones, injects a failure, chops a
read, advances the simulated clock or lets another process act (replace the file)."""
import builtins
import errno
import gc
import io
import mmap as _mmap_mod
import os
import shutil
import sys
import tempfile
import threading
import time as _time

REAL = {}
CUR = None
SYNTH = {}


class Injected(Exception):
    pass


class Recorder(object):
    """Stands for sys.stdout / sys.stderr: remembers what is written."""
    encoding = 'utf-8'
    errors = 'strict'
    closed = False

    def __init__(self, name):
        self.name = name
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def take(self):
        s = ''.join(map(str, self.parts))
        del self.parts[:]
        return s


OUT = Recorder('<stdout>')
ERR = Recorder('<stderr>')


def make_error(spec):
    """spec: an errno name, or the name of an exception."""
    if spec in ('MemoryError', 'KeyboardInterrupt', 'SystemExit', 'RecursionError'):
        return getattr(builtins, spec)('injected')
    if spec == 'Timeout':
        return SimTimeout('injected')
    if spec in ('ValueError', 'OverflowError', 'BufferError'):
        return getattr(builtins, spec)('injected')
    n = getattr(errno, spec)
    return OSError(n, os.strerror(n))


class SimTimeout(BaseException):
    """What a signal-based time limit or a cancelled worker raises."""


class World(object):
    """plan: list of dicts {"op": name or "any", "n": k, "err": spec}: the k-th call (from 0) of that kind
    fails.  chop: list of read sizes, used in turn.  lat: {op: seconds}."""
    opened = None

    def __init__(self, plan=None, chop=None, lat=None, actions=None, root=None):
        self.plan = [dict(p) for p in plan or ()]
        self.chop = list(chop or ())
        self.lat = dict(lat or {})
        self.actions = actions or []          # [(op, n, callable)]
        self.counts = {}
        self.total = 0
        self.log = []
        self.fired = []
        self.short = 0
        self.eintr = 0
        self.now = 1000.0
        self.wall = 1.6e9
        self.cpu = 50.0
        self.jumps = {}
        self.chopi = 0
        self.armed = True
        self.clock_reads = 0
        self.spent = {}
        self.errors = []
        self.note = None
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix='xlrdsim-', dir=root or base)
        self.prev = None

    # ---------------------------------------------------------------- life
    def __enter__(self):
        global CUR
        self.prev, CUR = CUR, self
        return self

    def __exit__(self, *exc):
        global CUR
        CUR = self.prev
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def put(self, name, data):
        p = os.path.join(self.dir, name)
        with REAL['open'](p, 'wb') as f:
            f.write(data)
        return p

    def replace(self, name, data, how='rename'):
        """what another process does to the file"""
        p = os.path.join(self.dir, name)
        t = p + '.new'
        with REAL['open'](t, 'wb') as f:
            f.write(data)
        if how == 'unlink':
            os.unlink(p)
        os.rename(t, p)

    def owns(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.dir)

    # ---------------------------------------------------------------- events
    def event(self, op):
        """A system call of kind op is about to happen."""
        if self.note is not None:
            self.note(op)
        if not self.armed:
            return
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        t = self.total
        self.total += 1
        self.log.append(op)
        dt = self.lat.get(op, 0.0)
        if dt:
            self.delay(dt)
            self.spent[op] = self.spent.get(op, 0.0) + dt
        for aop, an, fn in self.actions:
            if (aop == op and an == n) or (aop == 'any' and an == t):
                self.fired.append('action')
                fn(self)
        for p in self.plan:
            if not p.get('done') and ((p['op'] == op and p['n'] == n) or (p['op'] == 'any' and p['n'] == t)):
                p['done'] = True
                if p['err'] == 'EINTR':
                    self.eintr += 1
                    self.fired.append('EINTR')
                    continue                     # retried by the I/O layer (PEP 475)
                self.fired.append('%s:%s' % (op, p['err']))
                raise self.remember(make_error(p['err']))

    def remember(self, e):
        self.opened = e
        self.errors.append(e)
        return e

    def chop_size(self, n):
        if not self.chop or not self.armed or n <= 1:
            return n
        k = self.chop[self.chopi % len(self.chop)]
        self.chopi += 1
        if k and k < n:
            self.short += 1
            return k
        return n

    # ---------------------------------------------------------------- what is still held
    def held(self):
        """Descriptors and mappings of scratch files in this process."""
        out = []
        for fd in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if t.startswith(self.dir):
                out.append('fd of ' + os.path.basename(t))
        with REAL['open']('/proc/self/maps') as f:
            for line in f:
                if self.dir in line:
                    out.append('mapping of ' + os.path.basename(line.split(None, 5)[5].strip()))
        return sorted(out)

    def delay(self, dt, busy=False):
        """simulated time passes, waiting or computing"""
        self.now += dt
        self.wall += dt
        if busy:
            self.cpu += dt

    def clock(self):
        self.clock_reads += 1
        return self.now

    def wallclock(self):
        j = self.jumps.get(str(self.clock_reads))
        self.clock_reads += 1
        if j:
            self.wall += j
        return self.wall


class SimRaw(io.FileIO):
    def __init__(self, world, path):
        self.w = world
        self.quiet = True
        io.FileIO.__init__(self, path, 'rb')

    def _ev(self, op):
        if not self.quiet and CUR is self.w:
            self.w.event(op)

    def readinto(self, b):
        self._ev('read')
        m = memoryview(b).cast('B')
        n = len(m)
        if not self.quiet and CUR is self.w:
            n = self.w.chop_size(n)
        return io.FileIO.readinto(self, m[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        parts = []
        while True:
            self._ev('read')
            n = 1 << 16
            if not self.quiet and CUR is self.w:
                n = self.w.chop_size(n)
            s = io.FileIO.read(self, n)
            if not s:
                return b''.join(parts)
            parts.append(s)

    def seek(self, pos, whence=0):
        self._ev('seek')
        return io.FileIO.seek(self, pos, whence)

    def tell(self):
        self._ev('tell')
        return io.FileIO.tell(self)

    def fileno(self):
        return io.FileIO.fileno(self)

    def close(self):
        if self.closed:
            return
        io.FileIO.close(self)
        self._ev('close')


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = CUR
    if w is None or isinstance(file, int) or not w.owns(file) or mode not in ('rb', 'br') or opener is not None:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w.event('open')
    raw = SimRaw(w, file)
    if buffering == 0:
        f = raw
    else:
        f = io.BufferedReader(raw)
    raw.quiet = False
    return f


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = CUR
    if w is not None and dir_fd is None and w.owns(path):
        w.event('open')
    return REAL['os.open'](path, flags, mode, dir_fd=dir_fd)


def _fd_owned(fd):
    w = CUR
    if w is None:
        return None
    try:
        t = os.readlink('/proc/self/fd/%d' % fd)
    except (OSError, TypeError):
        return None
    return w if t.startswith(w.dir) else None


def sim_os_read(fd, n):
    w = _fd_owned(fd)
    if w is not None:
        w.event('read')
        n = w.chop_size(n)
    return REAL['os.read'](fd, n)


def _from_xlrd():
    f = sys._getframe(2)
    for _ in range(5):
        if f is None:
            return False
        if f.f_globals.get('__name__', '').split('.')[0] == 'xlrd':
            return True
        f = f.f_back
    return False


def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
    w = CUR
    if w is not None and dir_fd is None and (_fd_owned(path) if isinstance(path, int) else w.owns(path)) and _from_xlrd():
        w.event('stat')
    return REAL['os.stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def sim_fstat(fd):
    w = CUR
    if w is not None and _fd_owned(fd) and _from_xlrd():
        w.event('stat')
    return REAL['os.fstat'](fd)


class SimMmap(_mmap_mod.mmap):
    def __new__(cls, fileno, length, *a, **k):
        w = CUR
        if w is not None and fileno != -1 and _fd_owned(fileno):
            w.event('mmap')
        return _mmap_mod_mmap.__new__(cls, fileno, length, *a, **k)

    def close(self):
        if CUR is not None and CUR.note is not None:
            CUR.note('munmap')
        _mmap_mod_mmap.close(self)


_mmap_mod_mmap = _mmap_mod.mmap


def _clock(name, ns):
    real = getattr(_time, name + ('_ns' if ns else ''))

    def read():
        w = CUR
        if w is None or not w.armed:
            return real()
        v = w.wallclock() if name == 'time' else w.cpu if name in ('process_time', 'thread_time') else w.clock()
        return int(v * 1e9) if ns else v
    return read


class SimLock(object):
    """A lock that, when contended under the scheduler, lets another thread run instead of blocking."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        from . import sched
        s = sched.CUR
        if s is None or not s.mine():
            return self._real.acquire(blocking, timeout)
        spins = 0
        while not self._real.acquire(False):
            if not blocking or spins > 10000:
                return False
            spins += 1
            s.step(force=True)
        return True

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self._real.release()

    def __getattr__(self, n):
        return getattr(self._real, n)


def install():
    if REAL:
        return
    assert 'xlrd' not in sys.modules
    REAL['open'] = builtins.open
    REAL['os.open'] = os.open
    REAL['os.read'] = os.read
    REAL['Lock'] = threading.Lock
    REAL['RLock'] = threading.RLock
    REAL['perf_counter'] = _time.perf_counter
    builtins.open = sim_open
    io.open = sim_open
    REAL['os.stat'], REAL['os.fstat'] = os.stat, os.fstat
    os.stat, os.fstat = sim_stat, sim_fstat
    os.open = sim_os_open
    os.read = sim_os_read
    _mmap_mod.mmap = SimMmap
    for n in ('time', 'perf_counter', 'monotonic', 'process_time', 'thread_time'):
        r, rns = _clock(n, False), _clock(n, True)
        setattr(_time, n, r)
        setattr(_time, n + '_ns', rns)
    import zipfile  # noqa: F401  (before the locks are replaced)
    import copy, pprint, array, struct, datetime, decimal, logging  # noqa: F401,E401
    sys.stdout, sys.stderr = OUT, ERR


def install_locks():
    """After the harness's own threading objects exist: locks that xlrd creates are scheduler-aware."""
    threading.Lock = lambda: SimLock(REAL['Lock']())
    threading.RLock = lambda: SimLock(REAL['RLock']())


def collect():
    gc.collect()
