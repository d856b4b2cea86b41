"""C14: diagnostics never change results and never leave the log file."""
import io

from .. import damage, gen as G, lib, monitor, observe, ole, world
from . import c17, c21
from ..lib import Out, h

ID = 'C14'
QUICK, THOROUGH = 8000, 10 ** 7
RULE = ('One workbook (sometimes damaged in a way xlrd may accept) is read at several verbosities with several kinds of log file (in memory, write-only object, text wrapper, '
        'narrow encoding, real file), some of which fail at a seeded write. Results are compared with the reference model (for damaged files: with verbosity 0), standard '
        'streams must stay empty, and after a log failure that surfaced the file must be released. Non-trivial: something was logged or a log write failed. Distinct: '
        'by stream, options, verbosity, sink and failure point.')
MEASURE = 'distinct (verbosity, sink, failing write number, outcome) tuples'
TECHNIQUE = 'deterministic simulation with fault injection: simulated log sinks failing at seeded writes, results against a reference model, standard streams watched'
NOTE = 'Seeded search over workbooks, verbosities 0 to 5, sinks and failing writes. A sink with a narrow encoding counts as a failing one when it is given text it cannot hold.'
SINKS = ['mem', 'mem', 'min', 'wrap', 'ascii', 'file', 'fail', 'fail', 'fail']


class Min(object):
    """Only what print(file=...) documents as needed."""

    def __init__(self):
        self.n = 0

    def write(self, s):
        self.n += 1


def gen(rng, tier, i):
    opts = lib.gen_opts(rng)
    wb = G.gen_wb(rng, fmt=opts['fmt'], maxcells=rng.choice([3, 8, 15]), min_cells=1)
    names = 0
    if rng.random() < 0.12:
        wb = c21.gen(rng, tier, i)['wb']
        names = 1
    c = {'wb': wb, 'opts': opts, 'plan': ole.gen_plan(rng, rng.choice([1500, 4096, 6000])) if rng.random() < 0.6 else None, 'way': rng.choice(['mmap', 'read', 'bytes'])}
    if names:
        c['names'] = 1          # some of these are refused for references among names that go too deep
    if c['plan'] is not None and rng.random() < 0.1:
        if rng.random() < 0.5:
            c['plan'].pop('v4', None)
            c['plan'].update(ssz=9, sszf=rng.choice([21, 32, 512, 65535]))
            c['plan']['sssz'] = min(9, c['plan'].get('sssz', 6))
        else:
            c['plan'].update(sssz=6, ssszf=rng.choice([c['plan'].get('ssz', 9) + 1, 21, 64, 65535]))
    if rng.random() < 0.25:
        c['rec'] = damage.gen_rec(rng)
    elif rng.random() < 0.12:
        if c['plan'] and rng.random() < 0.5:
            c['ole'] = damage.gen_ole(rng)
        else:
            c['raw'] = damage.gen(rng, kinds=rng.choice([None, ['cut']]), n=rng.choice([None, 1]))
        if rng.random() < 0.5:
            opts['ignore'] = 1
    if rng.random() < 0.08:
        c = {'file': c17.gen_file(rng), 'opts': opts, 'way': c['way']}
    runs = []
    for _ in range(rng.choice([1, 2, 3])):
        s = rng.choice(SINKS)
        d = {'v': rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]), 'sink': s}
        if s == 'fail':
            d['fail'] = [rng.choice([0, 1, 2, 3, 5, 10, 30, 100, rng.randrange(1, 400)]), rng.choice(['ENOSPC', 'EIO', 'ValueError', 'KeyboardInterrupt', 'MemoryError', 'EPIPE'])]
        runs.append(d)
    c['runs'] = runs
    return c


def run(case):
    out = Out()
    if 'file' in case:
        data, im, hurt = c17.content(case['file'])[0], None, True
    else:
        stream, info, exp = lib.model_of(case)
        hurt = bool(case.get('names') or case.get('rec') or case.get('ole') or case.get('raw'))
        if case.get('rec'):
            stream = damage.apply_rec(stream, case['rec'])
        data, im = lib.image_of(case, stream)
    if case.get('ole'):
        lib.req(im)
        data = damage.apply_ole(data, im, case['ole'])
    if case.get('raw'):
        data = damage.apply(data, case['raw'])
    opts, fmt = case['opts'], bool(case['opts'].get('fmt'))
    loud = 0
    inter = set()

    def use(w, path, log, v):
        bk = lib.open_book(w, data, dict(opts, verbosity=v), case['way'], path=path, log=log)
        try:
            got = observe.snapshot(bk, fmt)
            if bk.on_demand:
                for k in range(bk.nsheets):
                    bk.unload_sheet(k)
                again = [observe.obs_sheet(s, fmt) for s in bk.sheets()]
                if again != got['sheets']:
                    got['sheets'] = again
        finally:
            bk.release_resources()
        return got

    with world.World() as w:
        path = w.put('b.xls', data)
        ref = None
        if hurt:
            try:
                with monitor.Budget(500000):
                    ref = ['ok', use(w, path, io.StringIO(), 0)]
            except monitor.BudgetExceeded:
                return out
            except Exception as e:
                lib.guard(e)
                ref = ['exc', type(e).__name__]
            # a damaged file may do anything to the standard streams only if it is refused
            if ref[0] == 'ok':
                lib.no_output(out, 'verbosity 0')
            else:
                world.OUT.take(), world.ERR.take()
        for d in case['runs']:
            sink = d['sink']
            raw = None
            if sink == 'mem':
                log = io.StringIO()
            elif sink == 'min':
                log = Min()
            elif sink in ('wrap', 'ascii'):
                raw = io.BytesIO()
                log = io.TextIOWrapper(raw, encoding='utf-8' if sink == 'wrap' else 'ascii', errors='surrogatepass' if sink == 'wrap' else 'strict', newline='\n')
            elif sink == 'file':
                log = world.REAL['open'](w.dir + '/log.txt', 'w', encoding='utf-8', errors='surrogatepass')
            else:
                log = lib.Log(d['fail'][0], d['fail'][1])
            ctx = 'verbosity %d, %s log%s' % (d['v'], sink, ' failing at write %d with %s' % tuple(d['fail']) if sink == 'fail' else '')
            got, err = None, None
            out.calls += 1
            try:
                got = use(w, path, log, d['v'])
            except BaseException as e:
                err = e
                hd = [x for x in w.held() if 'log.txt' not in x]
                if hd and not hurt:
                    out.bad('held', '%s: %s, and still held: %s' % (ctx, lib.show(e), ', '.join(hd)))
            injected = getattr(log, 'raised', None)
            if sink == 'mem':
                loud += len(log.getvalue())
            elif sink == 'min':
                loud += log.n
            elif sink in ('wrap', 'ascii'):
                try:
                    log.flush()
                except UnicodeError:
                    pass
                loud += len(raw.getvalue())
            elif sink == 'file':
                loud += log.tell()
                log.close()
            elif injected is not None:
                loud += 1
                out.fault('log write fails: %s' % d['fail'][1])
            if err is not None:
                if err is injected or (sink == 'ascii' and isinstance(err, UnicodeEncodeError)):
                    out.probe('the log failure surfaced')
                else:
                    lib.guard(err)
                    if not (ref and ref[0] == 'exc' and (type(err).__name__ == ref[1])):
                        out.bad('exception', '%s raised %s at %s%s' % (ctx, lib.show(err), lib.where(err), '; verbosity 0: %s' % ref[0] if ref else ''))
                    elif injected is None:
                        world.OUT.take(), world.ERR.take()
            elif ref is None:
                out.diffs('changed', observe.against(exp, got), ctx)
            elif ref[0] == 'exc':
                out.bad('accepted', '%s: read without complaint; at verbosity 0 it is refused with %s' % (ctx, ref[1]))
            else:
                out.diffs('changed', observe.diff(ref[1], got), ctx + ', compared with verbosity 0')
            inter.add('%d %s %s %s' % (d['v'], sink, d.get('fail'), type(err).__name__))
            err = None
            lib.no_output(out, ctx)
            if out.viol:
                break
        out.world(w)
    if loud:
        out.sig = h(case['runs'], opts, data.hex())
        out.inter = sorted(inter)
    return out
