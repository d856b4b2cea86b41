"""What the property modules share: opening a simulated file in every way xlrd offers, the outcome of a run,
comparing with the reference model."""
import codecs
import hashlib
import io
import json
import os
import sys
import traceback

from . import biff, monitor, observe, ole, world
from .biff import InvalidCase, req  # noqa: F401

xlrd = None
REPO = os.environ.get('XLRDSIM_REPO', '/repo')


def load_xlrd():
    """Import the code under test, behind the seams."""
    global xlrd
    world.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import xlrd as x
    import xlrd.book, xlrd.sheet, xlrd.compdoc, xlrd.formatting, xlrd.formula, xlrd.biffh, xlrd.info  # noqa: F401,E401
    assert os.path.abspath(x.__file__).startswith(os.path.abspath(REPO)), x.__file__
    # a codec that cannot be loaded for lack of memory would stay unknown to the process
    import codecs
    import encodings.aliases
    for e in sorted(set(encodings.aliases.aliases.values())):
        try:
            codecs.lookup(e)
        except LookupError:
            pass
    world.install_locks()
    monitor.setup()
    xlrd = x
    return x


def h(*parts):
    return hashlib.sha1(json.dumps(parts, sort_keys=True, default=str).encode()).hexdigest()[:12]


class Out(object):
    """What one simulated run amounts to."""

    def __init__(self):
        self.viol = []          # [kind, text]
        self.sig = None         # None: the run was trivial; otherwise what makes it distinct
        self.faults = {}        # fault kind -> times it fired
        self.probes = {}        # rare condition -> times it was hit
        self.sim = 0.0          # simulated seconds
        self.inter = None       # digest of the interleaving / fault position reached
        self.calls = 0          # calls into the library

    def bad(self, kind, text):
        self.viol.append([kind, text if len(text) < 1500 else text[:1500] + '...'])

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        if n:
            self.probes[kind] = self.probes.get(kind, 0) + int(n)

    def stats(self, st, keys=None):
        for k, v in st.items():
            if isinstance(v, (int, bool)) and v:
                self.probe(k, v)

    def world(self, w):
        self.fault('short read', w.short)
        for f in w.fired:
            self.fault(f)
        self.sim += w.now - 1000.0

    def diffs(self, kind, d, ctx=''):
        if d:
            self.bad(kind, '%s%s' % (ctx and ctx + ': ', '; '.join(d[:4])))

    def doc(self):
        return {'v': self.viol, 's': self.sig, 'f': self.faults, 'p': self.probes, 't': self.sim, 'n': self.inter, 'c': self.calls}


def show(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))


def blame(e):
    """Did this exception come from the code under test (or from looking at what it returned)?"""
    tb = e.__traceback__
    repo = os.path.abspath(REPO) + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(repo) or fn.endswith('sim/observe.py'):
            return True
        tb = tb.tb_next
    return False


def guard(e):
    """An exception that did not come from the code under test is the harness's own."""
    if not blame(e):
        raise e


class OutOfMemory(Exception):
    """The simulation process ran into its own limit: nothing can be concluded from this run."""


def drop(e):
    """Free what the frames of a handled exception hold."""
    while e is not None:
        traceback.clear_frames(e.__traceback__)
        e = e.__context__


class Buf(object):
    """A bytes-like object: the buffer protocol, length and slicing."""

    def __init__(self, b):
        self._b = b

    def __len__(self):
        return len(self._b)

    def __getitem__(self, k):
        return self._b[k]

    def __buffer__(self, flags):
        return memoryview(self._b)


class Log(io.StringIO):
    """A log file; fails at its n-th write if asked."""

    def __init__(self, fail_at=None, err='ENOSPC', w=None):
        io.StringIO.__init__(self)
        self.n = 0
        self.fail_at = fail_at
        self.err = err
        self.raised = None

    def write(self, s):
        k = self.n
        self.n += 1
        if self.fail_at is not None and k >= self.fail_at:
            if self.raised is None:
                self.raised = world.make_error(self.err)
            raise self.raised
        return io.StringIO.write(self, s)


WAYS = ['mmap', 'read', 'bytes', 'mmapobj', 'buf', 'bytearray']


def open_book(w, data, opts, way='bytes', name='book.xls', path=None, log=None):
    """Open the file image `data` with options opts, delivered in the given way."""
    kw = dict(logfile=log if log is not None else io.StringIO(), verbosity=opts.get('verbosity', 0),
              formatting_info=bool(opts.get('fmt')), on_demand=bool(opts.get('od')), ragged_rows=bool(opts.get('ragged')))
    if opts.get('enc') is not None:
        try:
            codecs.lookup(opts['enc'])
        except LookupError:
            raise biff.InvalidCase('encoding')
        kw['encoding_override'] = opts['enc']
    if opts.get('ignore'):
        kw['ignore_workbook_corruption'] = True
    if way in ('mmap', 'read'):
        p = path or w.put(name, data)
        return xlrd.open_workbook(p, use_mmap=(way == 'mmap'), **kw)
    if way == 'bytes':
        return xlrd.open_workbook(file_contents=bytes(data), **kw)
    if way == 'buf':
        return xlrd.open_workbook(file_contents=Buf(bytes(data)), **kw)
    if way == 'bytearray':
        return xlrd.open_workbook(file_contents=bytearray(data), **kw)
    if way == 'mmapobj':
        p = path or w.put(name, data)
        return xlrd.open_workbook(file_contents=make_map(p), **kw)
    raise InvalidCase('way')


def make_map(path):
    import mmap
    with world.REAL['open'](path, 'rb') as f:
        prev, world.CUR = world.CUR, None
        try:
            return mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        finally:
            world.CUR = prev


def model_of(case, opts=None):
    """-> (stream, stats, expected observation)"""
    o = opts or case.get('opts') or {}
    stream, st = biff.build(case['wb'])
    return stream, st, biff.expect(case['wb'], bool(o.get('fmt')), bool(o.get('ragged')))


def gen_opts(rng, fmt=None, od=None, ragged=None):
    o = {'fmt': int(rng.random() < 0.5) if fmt is None else int(fmt), 'ragged': int(rng.random() < 0.4) if ragged is None else int(ragged)}
    if od is None:
        od = rng.random() < 0.35
    if od:
        o['od'] = 1
    return o


def image_of(case, stream):
    """The file image: inside an OLE container laid out per the plan, or bare."""
    if case.get('plan') is None:
        return stream, None
    im = ole.build(stream, case['plan'])
    return im.data, im


def check_snapshot(out, exp, bk, fmt, kind='wrong-result', ctx=''):
    got = observe.snapshot(bk, fmt)
    out.diffs(kind, observe.against(exp, got), ctx)
    return got


def no_output(out, ctx=''):
    a, b = world.OUT.take(), world.ERR.take()
    if a:
        out.bad('stdout', '%s wrote to stdout: %r' % (ctx, a[:200]))
    if b:
        out.bad('stderr', '%s wrote to stderr: %r' % (ctx, b[:200]))


def digest(obs):
    return hashlib.sha1(json.dumps(obs, sort_keys=False, default=str).encode()).hexdigest()[:16]
