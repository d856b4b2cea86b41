"""C12: Books are independent of each other under any thread interleaving."""
import io

from .. import damage, gen as G, lib, monitor, observe, ole, sched, world
from ..lib import Out, h

ID = 'C12'
QUICK, THOROUGH = 4000, 10 ** 7
CASE_TIMEOUT = 100
RULE = ('Two to four real threads each open, load and read workbooks (own file, or the very same path; different versions, encodings and options; some damaged), one running at '
        'a time, the switches between them decided by the seed at source-line or bytecode granularity inside library code; some threads are interrupted or abandoned half way, some change everything their own Book shows. '
        'Every thread that ends must have the result of the reference model (for a damaged file: what it gets alone). Non-trivial: at least two switches between threads. '
        'Distinct: by schedule trace and files.')
MEASURE = 'distinct schedule traces (which thread was switched to, at which step of the one that stopped)'
TECHNIQUE = 'deterministic simulation: seeded scheduler over real threads serialised at line or bytecode granularity, against a reference model'
NOTE = ('Seeded search over interleavings of up to 4 threads; switches happen at lines or bytecodes of library code, not inside C functions, which the interpreter lock '
        'makes atomic.')
STUBBED = 'thread scheduling (seeded; one thread runs at a time), locks created by the library, file writer (simulated)'


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3, 4])
    kind = rng.choice(['line', 'line', 'instr'])
    size = rng.choice([2, 4, 8]) if kind == 'instr' or n > 2 else rng.choice([3, 8, 15])
    fmt_any = rng.random() < 0.4
    threads = []
    for t in range(n):
        if t and rng.random() < 0.25:
            d = {'like': rng.randrange(t)}
        else:
            fmt = int(fmt_any and rng.random() < 0.6)
            d = {'wb': G.gen_wb(rng, fmt=fmt, maxcells=size, min_cells=1, nsheets=rng.choice([1, 1, 2, 3])),
                 'plan': ole.gen_plan(rng, rng.choice([1500, 4096])) if rng.random() < 0.5 else None}
            if rng.random() < 0.12:
                d['damage'] = damage.gen(rng)
            elif rng.random() < 0.1:
                d['rec'] = damage.gen_rec(rng)
        d['opts'] = lib.gen_opts(rng, fmt=int(fmt_any and rng.random() < 0.7), od=rng.random() < 0.4)
        if rng.random() < 0.15:
            d['opts']['verbosity'] = rng.choice([1, 2])
        if rng.random() < 0.1:
            d['opts']['enc'] = rng.choice(['latin_1', 'cp1251', 'utf_8'])
        d['way'] = rng.choice(['mmap', 'read', 'bytes', 'bytes'])
        d['scribble'] = int(rng.random() < 0.4)
        d['again'] = int(rng.random() < 0.15)
        threads.append(d)
    segs = []
    scale = rng.choice([3, 10, 30, 100, 300, 1000])
    for _ in range(rng.choice([3, 10, 30, 60])):
        segs.append([rng.randrange(n), max(1, int(rng.expovariate(1.0) * scale))])
    c = {'threads': threads, 'segs': segs, 'kind': kind}
    top = 4000 if kind == 'line' else 20000
    if rng.random() < 0.3:
        c['intr'] = [[rng.randrange(n), rng.randrange(1, top), rng.choice(['KeyboardInterrupt', 'MemoryError', 'Timeout'])] for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.2:
        c['abandon'] = [[rng.randrange(n), rng.randrange(1, top)]]
    return c


def prepare(case):
    """-> per thread: data, expected or None, options"""
    out = []
    for d in case['threads']:
        src = d
        while 'like' in src:
            src = case['threads'][src['like'] % len(case['threads'])]
            lib.req(src is not d)
        fmt = bool(d['opts'].get('fmt'))
        enc = d['opts'].get('enc')
        lib.req(enc in (None, 'latin_1', 'cp1251', 'utf_8'))
        stream, info, exp = lib.model_of({'wb': src['wb']}, d['opts'])
        if src.get('rec'):
            stream = damage.apply_rec(stream, src['rec'])
        data, im = lib.image_of(src, stream)
        if src.get('damage'):
            data = damage.apply(data, src['damage'])
        if src.get('rec') or src.get('damage') or enc:
            exp = None
        out.append([data, exp, fmt, case['threads'].index(src)])
    return out


def work(w, d, data, path):
    """what a thread does"""
    lib_ = lib.xlrd
    fmt = bool(d['opts'].get('fmt'))
    r = None
    for _ in range(1 + d.get('again', 0)):
        bk = lib.open_book(w, data, d['opts'], d['way'], path=path, log=io.StringIO())
        r = observe.snapshot(bk, fmt)
        if d['opts'].get('od'):
            # let another thread's history matter: unload and load again
            for k in range(bk.nsheets):
                if bk.on_demand:
                    bk.unload_sheet(k)
            r2 = [observe.obs_sheet(s, fmt) for s in bk]
            if r2 != r['sheets']:
                r = {'reloaded differently': observe.diff(r['sheets'], r2)}
            bk.release_resources()
        if d.get('scribble'):
            # this thread does as it likes with its own Book
            observe.scribble(bk)
    assert lib_ is lib.xlrd
    return r


def outcome(fn):
    try:
        return ['ok', fn()]
    except Exception as e:
        lib.guard(e)
        return ['exc', type(e).__name__, str(e)]


def run(case):
    out = Out()
    prep = prepare(case)
    n = len(prep)
    with world.World() as w:
        paths = [w.put('t%d.xls' % src, data) for data, exp, fmt, src in prep]
        alone = []
        for d, (data, exp, fmt, src), p in zip(case['threads'], prep, paths):
            if exp is None:
                try:
                    with monitor.Budget(400000):
                        alone.append(outcome(lambda: work(w, d, data, p)))
                except monitor.BudgetExceeded:
                    return out          # damage that declares a huge sheet: not worth a schedule
            else:
                alone.append(None)
        thunks = [lambda d=d, data=pr[0], p=p: work(w, d, data, p) for d, pr, p in zip(case['threads'], prep, paths)]
        s = sched.Sched(thunks, case['segs'], case['kind'], [tuple(q) for q in case.get('intr') or ()], [tuple(q) for q in case.get('abandon') or ()])
        res = s.run()
        intr = set(t % n for t, k, e in case.get('intr') or ())
        for t, r in enumerate(res):
            d, (data, exp, fmt, src) = case['threads'][t], prep[t]
            if r is None or r[0] == 'killed':
                out.fault('thread abandoned')
                continue
            if r[0] == 'exc':
                e = r[1]
                if t in intr and isinstance(e, (KeyboardInterrupt, MemoryError, world.SimTimeout)) and str(e) == 'injected':
                    out.fault('thread interrupted: ' + type(e).__name__)
                    continue
                lib.guard(e)
                if alone[t] is not None:
                    if alone[t] != ['exc', type(e).__name__, str(e)]:
                        out.bad('thread', 'thread %d: alone %s, in company %s at %s' % (t, observe.short(alone[t]), lib.show(e), lib.where(e)))
                    else:
                        out.probe('an open that fails, in company')
                    continue
                out.bad('thread', 'thread %d raised %s at %s' % (t, lib.show(e), lib.where(e)))
                continue
            if alone[t] is not None:
                if alone[t][0] != 'ok':
                    out.bad('thread', 'thread %d: alone it raised %s, in company it returned' % (t, observe.short(alone[t])))
                elif alone[t][1] != r[1]:
                    out.diffs('thread', observe.diff(alone[t][1], r[1]), 'thread %d, compared with alone' % t)
            elif 'book' not in r[1]:
                out.bad('thread', 'thread %d: %r' % (t, r[1]))
            else:
                out.diffs('thread', observe.against(exp, r[1]), 'thread %d' % t)
        lib.no_output(out, 'threads')
        out.world(w)
        out.calls = n
        out.probe('switches', s.switches)
        if s.switches > 1:
            out.sig = h(s.trace, [pr[0].hex() for pr in prep], case['threads'])
            out.inter = str(s.trace)
    return out
