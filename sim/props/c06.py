"""C06: files and mappings are released at the documented moment, on every path."""
import gc
import io

from .. import damage, gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C06'
QUICK, THOROUGH = 9000, 10 ** 7
RULE = ('One call history on one file (open eagerly; open on demand, load some sheets, release or leave a with block; inspect_format; dump; count_records; each '
        'possibly cut short by damaged content, a failing system call, a failing log or output file, an allocation failure or an asynchronous interrupt at a seeded line), '
        'with the descriptor and mapping tables of the process examined at each documented moment of release. Non-trivial: the history opened the file at least once. '
        'Distinct: by history, fault and file.')
MEASURE = 'distinct (scenario, way, point at which it was cut short, exception)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded faults and interrupts, descriptor and mapping tables checked as an invariant'
NOTE = ('Seeded search over scenarios and cut points; /proc/self/fd and /proc/self/maps are examined for the scratch file. For interrupts that strike within 40 lines of '
        'an open, map, unmap or close, or of the moment an on-demand Book is handed over (where no Python code can be exact), only eventual release, after the exception is dropped and garbage collected, is required.')
INTR = ['KeyboardInterrupt', 'Timeout', 'MemoryError', 'SystemExit']


def gen(rng, tier, i):
    fmt = int(rng.random() < 0.4)
    sc = rng.choice(['eager', 'eager', 'eager', 'demand', 'demand', 'demand', 'demand', 'inspect', 'dump', 'count', 'mmapobj', 'mmapobj'])
    wb = G.gen_wb(rng, fmt=fmt, maxcells=rng.choice([2, 6, 15]), v=rng.choice([80, 80, 70, 50]) if sc == 'demand' and rng.random() < 0.9 else None)
    c = {'wb': wb, 'sc': sc, 'opts': lib.gen_opts(rng, fmt=fmt, od=(sc == 'demand')), 'plan': ole.gen_plan(rng, 3000) if rng.random() < 0.6 else None,
         'way': rng.choice(['mmap', 'mmap', 'read'])}
    if sc == 'mmapobj':
        c['opts']['od'] = rng.randrange(2)
    cut = rng.choice([None, 'sys', 'sys', 'line', 'line', 'damage', 'rdamage', 'log'])
    if cut == 'sys':
        c['fault'] = [rng.random(), rng.choice(['EIO', 'ENOMEM', 'EMFILE', 'MemoryError', 'KeyboardInterrupt', 'EACCES'])]
    elif cut == 'line':
        c['line'] = [rng.random(), rng.choice(INTR)]
    elif cut == 'damage':
        c['damage'] = damage.gen(rng)
    elif cut == 'rdamage':
        c['rdamage'] = damage.gen_rec(rng)
    elif cut == 'log':
        c['log'] = [rng.choice([0, 1, 2, 3, 10, 50, 200]), rng.choice(['ENOSPC', 'EIO', 'ValueError', 'KeyboardInterrupt'])]
        c['opts']['verbosity'] = rng.choice([1, 2, 3])
    if sc == 'demand':
        c['ops'] = [[rng.choice(['load', 'load', 'load', 'loadall', 'unload', 'name']), rng.randrange(8)] for _ in range(rng.randrange(0, 6))]
        c['end'] = rng.choice(['release', 'with', 'withexc', 'release2'])
        c['line_in_ops'] = int(rng.random() < 0.5)
    return c


def run(case):
    out = Out()
    x = lib.xlrd
    stream, info, exp = lib.model_of(case)
    bad = bool(case.get('damage') or case.get('rdamage'))
    if case.get('rdamage'):
        stream = damage.apply_rec(stream, case['rdamage'])
    data, im = lib.image_of(case, stream)
    if case.get('damage'):
        data = damage.apply(data, case['damage'])
    sc, opts = case['sc'], case['opts']
    fmt = bool(opts.get('fmt'))
    od = bool(opts.get('od'))
    fl = case.get('log')

    exc = None

    def scenario(w, path, log, hooks):
        """runs the calls; hooks('moment', strict) at each documented moment"""
        if sc == 'eager':
            lib.open_book(w, data, opts, case['way'], path=path, log=log)
            hooks('return of open_workbook')
        elif sc == 'inspect':
            try:
                x.inspect_format(path)
            finally:
                hooks('return of inspect_format')
        elif sc in ('dump', 'count'):
            (x.dump if sc == 'dump' else x.count_records)(path, log)
            hooks('return of ' + sc)
        elif sc == 'mmapobj':
            lib.req(data)
            mm = lib.make_map(path)
            try:
                try:
                    x.inspect_format(content=mm)
                finally:
                    if mm.closed:
                        out.bad('closed', 'inspect_format closed the mmap it was given')
                        return
                bk = x.open_workbook(file_contents=mm, logfile=log, verbosity=opts.get('verbosity', 0), formatting_info=fmt, on_demand=od)
                if w.note is not None:
                    w.note('handed over')
                if od and bk.on_demand:
                    bk.release_resources()
                hooks('release', mm)
            except Exception as e:
                if e is not exc:
                    hooks('exception', mm)
                raise
            finally:
                if not mm.closed:
                    mm.close()
        elif sc == 'demand':
            bk = lib.open_book(w, data, opts, case['way'], path=path, log=log)
            if w.note is not None:
                w.note('handed over')
            loaded = {}
            first = None
            try:
                for op, n in case.get('ops') or ():
                    if not bk.nsheets:           # a damaged file may show none
                        break
                    k = n % bk.nsheets
                    try:
                        if op == 'load':
                            loaded[k] = bk.sheet_by_index(k)
                        elif op == 'loadall':
                            for j, s in enumerate(bk.sheets()):
                                loaded[j] = s
                        elif op == 'name':
                            loaded[k] = bk.sheet_by_name(bk.sheet_names()[k])
                        elif op == 'unload' and bk.on_demand:
                            bk.unload_sheet(k)
                    except BaseException as e:
                        if first is None:
                            first = e
            finally:
                if case['end'] == 'with':
                    with bk:
                        pass
                elif case['end'] == 'withexc':
                    try:
                        with bk:
                            raise KeyError('user')
                    except KeyError:
                        pass
                else:
                    bk.release_resources()
            hooks('release')
            for _ in range(2 if case['end'] == 'release2' else 1):
                bk.release_resources()
            hooks('second release')
            keep.append(loaded)
            if first is not None:
                raise first

    keep = []
    budget = 3000000 + 400 * len(data)
    # 1. dry run: where are the opens, maps, unmaps and closes, and how long is it
    marks = []
    total = nlines = 0
    needs_dry = bool(case.get('fault') or case.get('line'))
    if needs_dry:
        with world.World() as w:
            p = w.put('b.xls', data)
            ln = monitor.Lines()
            w.note = lambda op: marks.append(ln.n)
            try:
                with ln:
                    scenario(w, p, io.StringIO(), lambda *a: None)
            except Exception as e:
                lib.guard(e)
                if not bad:
                    out.bad('refused', '%s at %s' % (lib.show(e), lib.where(e)))
                    return out
            total, nlines = w.total, ln.n
            w.note = None
        if out.viol:
            return out
    plan, k = [], None
    strict = True
    if case.get('fault'):
        plan = [{'op': 'any', 'n': int(case['fault'][0] * total), 'err': case['fault'][1]}]
        # a close that fails has nevertheless closed
    if case.get('line'):
        k = 1 + int(case['line'][0] * nlines)
        exc = world.make_error(case['line'][1])
        strict = all(abs(k - m) > 40 for m in marks)
    log = lib.Log(fl[0] if fl else None, fl[1] if fl else 'ENOSPC')
    raised = None
    seen = []
    del keep[:]
    with world.World(plan=plan) as w:
        p = w.put('b.xls', data)

        def hooks(moment, mm=None):
            if mm is not None:
                if strict and not mm.closed:
                    seen.append('%s: the mmap handed in is still open' % moment)
                return
            if strict:
                hd = w.held()
                if hd:
                    seen.append('%s: still held: %s' % (moment, ', '.join(hd)))
        mon = monitor.Lines(k, exc) if k else monitor.Budget(budget)
        try:
            with mon:
                scenario(w, p, log, hooks)
        except BaseException as e:
            raised = e
            lib_ok = e is exc or any(e is y for y in w.errors) or e is log.raised
            if not lib_ok and not isinstance(e, monitor.BudgetExceeded):
                lib.guard(e)
            if strict:
                hd = w.held()
                if hd:
                    seen.append('%s raised: still held while the exception is handled: %s' % (lib.show(e), ', '.join(hd)))
            lib_ok = None
        nm = type(raised).__name__ if raised is not None else 'returned'
        raised = None
        if not strict:
            # near an open or a close, no Python code can be exact: but nothing may stay for ever
            exc = None
            mon = None
            w.errors, w.opened = [], None
            log = None
            gc.collect()
            hd = w.held()
            if hd:
                seen.append('after the exception was dropped: still held: ' + ', '.join(hd))
        if not bad:
            for j, sh in sorted(keep[0].items()) if keep else ():
                try:
                    out.diffs('released sheet', observe.against_sheet(exp['sheets'][j], observe.obs_sheet(sh, fmt)), 'sheet %d after release' % j)
                except Exception as e:
                    lib.guard(e)
                    out.bad('released sheet', 'reading sheet %d after release raised %s at %s' % (j, lib.show(e), lib.where(e)))
        for s in seen[:3]:
            out.bad('held', s)
        out.world(w)
        out.calls += 1
        cutpt = [f for f in w.fired] or (case.get('line') and [case['line'][1], k]) or (fl and [fl]) or bad
        if case.get('line'):
            out.fault('interrupt: ' + case['line'][1])
            out.probe('strict', strict)
        if fl and nm != 'returned':
            out.fault('log or output file fails: ' + fl[1])
        out.probe('%s: %s' % (sc, 'raised' if nm != 'returned' else 'returned'))
    out.sig = h(case['sc'], case.get('ops'), case.get('end'), cutpt, case['opts'], case['way'], stream.hex())
    out.inter = h(sc, case['way'], nm, k, cutpt if not bad else nm)
    return out
