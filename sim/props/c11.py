"""C11: a failed or interrupted sheet load leaves the Book usable."""
from .. import gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C11'
QUICK, THOROUGH = 8000, 10 ** 7
RULE = ('An on-demand Book of a multi-sheet file goes through a history of loads, unloads and repeated attempts, some loads cut short by an asynchronous exception at a seeded '
        'line or bytecode, by a failing log file, or by a failing system call. After every cut: the exception is the injected one, the sheet is not reported as loaded '
        'unless it is complete, other sheets and book data match the reference model; a later attempt gives the complete sheet. Non-trivial: at least one load was cut '
        'short. Distinct: by history, cut points and stream.')
MEASURE = 'distinct (kind of cut, place in the code where it struck)'
TECHNIQUE = 'deterministic simulation with fault injection: exceptions raised at seeded points of sheet loads, state checked against a reference model after each'
NOTE = 'Seeded search over cut points (source lines and bytecodes of library code, log writes, system calls) and histories of up to 12 operations on up to 5 sheets.'
EXC = ['KeyboardInterrupt', 'MemoryError', 'Timeout', 'SystemExit', 'RecursionError', 'EIO']


def gen(rng, tier, i):
    opts = lib.gen_opts(rng, od=True)
    wb = G.gen_wb(rng, v=rng.choice([80, 80, 80, 70, 50]), fmt=opts['fmt'], nsheets=rng.choice([1, 2, 2, 3, 5]), maxcells=rng.choice([3, 8, 20]), min_cells=1,
                  notes=rng.choice([None, None, True]) if opts['fmt'] else None)
    logcut = rng.random() < 0.25
    if logcut:
        opts['verbosity'] = rng.choice([1, 2, 3])
    ops = []
    for _ in range(rng.choice([1, 2, 4, 8, 12])):
        op = rng.choice(['load', 'load', 'load', 'load', 'name', 'all', 'iter', 'unload', 'check', 'book'])
        cut = None
        if op in ('load', 'name', 'all', 'iter') and rng.random() < 0.7:
            m = rng.random()
            if logcut:
                cut = ['log', rng.choice([0, 0, 1, 2, 5, 20, 100]), rng.choice(['ENOSPC', 'EIO', 'ValueError', 'KeyboardInterrupt'])]
            elif m < 0.1:
                cut = ['sys', rng.randrange(3), rng.choice(['EIO', 'ENOMEM', 'MemoryError'])]
            elif m < 0.75:
                cut = ['line', rng.choice([rng.random(), rng.random(), rng.random(), 1 - rng.random() * 0.05, rng.random() * 0.05]), rng.choice(EXC)]
            else:
                cut = ['instr', rng.choice([rng.random(), rng.random(), 1 - rng.random() * 0.02]), rng.choice(EXC)]
        ops.append([op, rng.randrange(5), cut])
    return {'wb': wb, 'opts': opts, 'way': rng.choice(['mmap', 'mmap', 'read', 'bytes']), 'ops': ops,
            'plan': ole.gen_plan(rng, rng.choice([3000, 6000])) if rng.random() < 0.6 else None}


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    data, im = lib.image_of(case, stream)
    opts, fmt = case['opts'], bool(case['opts'].get('fmt'))
    n = len(exp['sheets'])
    places = set()
    ncut = 0
    with world.World() as w:
        p = w.put('b.xls', data)
        need = set(c[0] for _, _, c in case['ops'] if c)
        size = {}
        for kind in ('line', 'instr'):
            if kind not in need:
                continue
            dry = lib.open_book(w, data, opts, case['way'], path=p)
            for k in range(n):
                with monitor.Lines(kind=kind) as ln:
                    dry.sheet_by_index(k)
                size[kind, k] = ln.n
            dry.release_resources()
        log = lib.Log()
        bk = lib.open_book(w, data, opts, case['way'], path=p, log=log)
        if not bk.on_demand:
            out.bad('od', 'on_demand was not honoured')
            return out
        names = bk.sheet_names()
        loaded = {}

        def read(k, s, ctx):
            d = observe.against_sheet(exp['sheets'][k], observe.obs_sheet(s, fmt))
            if d:
                out.bad('wrong-sheet', '%s, sheet %d: %s' % (ctx, k, '; '.join(d[:3])))

        def book(ctx):
            g = observe.obs_book(bk, fmt)
            d = []
            for key in ('fonts', 'formats', 'xfs', 'styles', 'palette', 'names'):
                if key in exp:
                    observe.diff(exp[key], g[key], key, subset=key in ('fonts', 'xfs', 'names'), out=d)
            observe.diff(exp['book'], g['book'], 'book', subset=True, out=d)
            out.diffs('book-data', d, ctx)

        def sync(ctx):
            """the table after an operation that may have loaded or may have been cut"""
            for k in range(n):
                if bk.sheet_loaded(k):
                    s = bk.sheet_by_index(k)
                    if k in loaded:
                        if s is not loaded[k]:
                            out.bad('identity', '%s: sheet %d was replaced' % (ctx, k))
                    else:
                        loaded[k] = s
                        read(k, s, ctx)
                elif k in loaded:
                    out.bad('lost', '%s: sheet %d is no longer loaded' % (ctx, k))

        for step, (op, arg, cut) in enumerate(case['ops']):
            if out.viol:
                break
            k = arg % n
            ctx = 'step %d %s %d' % (step, op, k) + (' cut by %s' % cut if cut else '')
            if op == 'unload':
                bk.unload_sheet(k)
                loaded.pop(k, None)
                continue
            if op == 'check':
                for j, s in loaded.items():
                    read(j, s, ctx)
                continue
            if op == 'book':
                book(ctx)
                continue
            fn = {'load': lambda: bk.sheet_by_index(k), 'name': lambda: bk.sheet_by_name(names[k]), 'all': bk.sheets, 'iter': lambda: list(bk)}[op]
            mon = exc = None
            todo = [j for j in (range(n) if op in ('all', 'iter') else [k]) if j not in loaded]
            lw = None
            if cut and todo:
                if cut[0] in ('line', 'instr'):
                    total = sum(size[cut[0], j] for j in todo)
                    exc = world.make_error(cut[2])
                    mon = monitor.Lines(1 + int(cut[1] * total), exc, cut[0])
                elif cut[0] == 'log':
                    log.fail_at, log.err, log.raised = log.n + cut[1], cut[2], None
                    lw = log
                else:
                    w.plan.append({'op': 'any', 'n': w.total + cut[1], 'err': cut[2]})
                    del w.errors[:]
            raised = None
            try:
                if mon is not None:
                    with mon:
                        fn()
                else:
                    fn()
            except BaseException as e:
                raised = e
            inj = exc if mon is not None and mon.where else lw.raised if lw is not None else w.errors[0] if w.errors else None
            del w.plan[:]
            del w.errors[:]
            log.fail_at = None
            where = (mon.where if mon is not None else None) if raised is not None else None
            if inj is not None:
                ncut += 1
                out.fault('%s: %s' % (cut[0], cut[2]))
                places.add('%s %s' % (cut[0], where))
            if raised is not None and raised is not inj:
                lib.guard(raised)
                out.bad('exception', '%s raised %s at %s' % (ctx, lib.show(raised), lib.where(raised)))
                break
            if inj is not None and raised is None:
                out.bad('swallowed', '%s: %s never reached the caller' % (ctx, lib.show(inj)))
            raised = exc = inj = mon = None
            sync(ctx + (' at %s' % where if where else ''))
            if cut and not out.viol:
                book(ctx)
        if not out.viol:
            for j, s in list(loaded.items()):
                read(j, s, 'at the end')
            try:
                for k, s in enumerate(bk.sheets()):
                    if k in loaded and loaded[k] is not s:
                        out.bad('identity', 'at the end: sheet %d was replaced' % k)
                    read(k, s, 'loaded at the end')
            except Exception as e:
                lib.guard(e)
                out.bad('retry', 'loading the rest raised %s at %s' % (lib.show(e), lib.where(e)))
            book('at the end')
        bk.release_resources()
        out.world(w)
    out.calls = len(case['ops'])
    if ncut:
        out.sig = h(case['ops'], opts, stream.hex())
        out.inter = sorted(places)
        out.probe('cuts in one history', ncut)
    return out
