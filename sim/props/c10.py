"""C10: on-demand loading is indistinguishable from eager loading over any history."""
import gc

from .. import gen as G, lib, observe, ole, world
from ..lib import Out, h

ID = 'C10'
QUICK, THOROUGH = 12000, 10 ** 7
RULE = ('A history of lifecycle operations (listing, testing, loading by index, name, item, live iteration or all at once, unloading, failing lookups, releasing, leaving '
        'with blocks, reading old sheets, modifying returned lists) on one to three Books of one multi-sheet file, each step checked against a small reference model '
        'of the sheet table and each sheet against the reference workbook. Non-trivial: at least one load on an on-demand Book. Distinct: by history, options and stream.')
MEASURE = 'distinct (operation, loaded set, released flag) triples reached'
TECHNIQUE = 'deterministic simulation: seeded operation histories checked step by step against an executable reference model'
NOTE = 'Seeded search over histories of up to 30 operations, up to 6 worksheets (now and then 260) and 3 Books of the same file, in every way of delivering it.'
STUBBED = 'file writer (simulated); system calls as in a fault-free run'

OPS = ['names', 'loaded_i', 'loaded_n', 'load_i', 'load_i', 'load_i', 'load_n', 'load_n', 'get_i', 'get_n', 'all', 'partial', 'itstart', 'itnext', 'itnext',
       'unload_i', 'unload_i', 'unload_n', 'badname', 'badindex', 'read', 'drop', 'book']


def gen(rng, tier, i):
    fmt = int(rng.random() < 0.35)
    v = rng.choice([80, 80, 80, 70, 50, 50, 45, 40]) if rng.random() < 0.93 else None
    wb = G.gen_wb(rng, v=v, fmt=fmt, nsheets=rng.choice([1, 2, 3, 4, 6]), maxcells=rng.choice([2, 5, 12]))
    many = rng.random()
    if many < 0.012:
        G.more_sheets(rng, wb, 255 if many < 0.002 else rng.choice([9, 12, 25]))
    nb = rng.choice([1, 1, 1, 2, 3])
    books = []
    for b in range(nb):
        books.append({'opts': lib.gen_opts(rng, fmt=fmt if b == 0 or rng.random() < 0.7 else 0, od=rng.random() < 0.88), 'way': rng.choice(lib.WAYS)})
    n = rng.choice([3, 6, 10, 20, 30])
    ops = []
    for _ in range(n):
        op = rng.choice(OPS)
        ops.append([rng.randrange(nb), op, rng.randrange(12 if many >= 0.012 else 300)])
    if many < 0.012:
        ops.insert(rng.randrange(len(ops) + 1), [0, rng.choice(['all', 'all', 'partial', 'itstart']), 0])
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            j = rng.randrange(len(ops) // 2, len(ops) + 1)
            ops.insert(j, [rng.randrange(nb), rng.choice(['release', 'with', 'withexc']), 0])
    return {'wb': wb, 'books': books, 'ops': ops, 'plan': ole.gen_plan(rng, rng.choice([3000, 6000])) if rng.random() < 0.7 else None}


class M(object):
    pass


def run(case):
    out = Out()
    x = lib.xlrd
    stream, info, exp0 = lib.model_of(case, {})
    data, im = lib.image_of(case, stream)
    hist = []           # (book, k, sheet object)
    states = set()
    loads = 0
    with world.World() as w:
        p = w.put('b.xls', data)
        books = []
        for d in case['books']:
            m = M()
            m.o, m.fmt = d['opts'], bool(d['opts'].get('fmt'))
            m.exp = lib.biff.expect(case['wb'], m.fmt, bool(m.o.get('ragged')))
            m.bk = lib.open_book(w, data, m.o, d['way'], path=p)
            m.od = bool(m.o.get('od')) and case['wb']['v'] >= 50
            m.names = [s['name'] for s in m.exp['sheets']]
            m.n = len(m.names)
            m.loaded = {}
            m.released = not m.od
            m.its = []
            if m.bk.nsheets != m.n:
                out.bad('nsheets', '%d, expected %d' % (m.bk.nsheets, m.n))
                return out
            if not m.od:
                for k, s in enumerate(m.bk.sheets()):
                    m.loaded[k] = s
                    hist.append((m, k, s))
            books.append(m)
        full = set()

        def read(m, k, s, ctx):
            d = observe.against_sheet(m.exp['sheets'][k], observe.obs_sheet(s, m.fmt))
            if d:
                out.bad('wrong-sheet', '%s, sheet %d: %s' % (ctx, k, '; '.join(d[:3])))

        def got(m, k, s, ctx):
            """sheet k was handed out"""
            if k in m.loaded:
                if s is not m.loaded[k]:
                    out.bad('identity', '%s: sheet %d was loaded but another object was handed out' % (ctx, k))
            else:
                if m.released:
                    out.bad('after-release', '%s loaded sheet %d after the Book was released' % (ctx, k))
                m.loaded[k] = s
                hist.append((m, k, s))
                if id(s) not in full:
                    read(m, k, s, ctx)

        def expect_exc(fn, types, ctx):
            try:
                fn()
            except types:
                return
            except Exception as e:
                lib.guard(e)
                out.bad('exception', '%s raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                return
            out.bad('no-exception', '%s raised nothing' % ctx)

        def loadable(m, k):
            return k in m.loaded or not m.released

        def table(m, ctx):
            for j in range(m.n):
                a = m.bk.sheet_loaded(j)
                if bool(a) != (j in m.loaded):
                    out.bad('loaded', 'after %s: sheet_loaded(%d) is %r, expected %r' % (ctx, j, a, j in m.loaded))
                    return
        for m in books:
            table(m, 'open')
        for step, (b, op, arg) in enumerate(case['ops']):
            if out.viol:
                break
            m = books[b % len(books)]
            bk = m.bk
            k = arg % m.n
            nm = m.names[k]
            ctx = 'step %d %s %d' % (step, op, k)
            states.add('%s %s %d' % (op, ''.join('01'[j in m.loaded] for j in range(m.n)), m.released))
            out.calls += 1
            was = dict(m.loaded)
            try:
                if op == 'names':
                    l = bk.sheet_names()
                    if l != m.names:
                        out.bad('names', '%s: %r, expected %r' % (ctx, l, m.names))
                    l.reverse()
                    l.append('zz')
                elif op == 'book':
                    if bk.nsheets != m.n:
                        out.bad('nsheets', '%s: %r' % (ctx, bk.nsheets))
                    g = observe.obs_book(bk, m.fmt)
                    d = []
                    for key in ('fonts', 'formats', 'xfs', 'styles', 'palette', 'names'):
                        if key in m.exp:
                            observe.diff(m.exp[key], g[key], key, subset=key in ('fonts', 'xfs', 'names'), out=d)
                    observe.diff(m.exp['book'], g['book'], 'book', subset=True, out=d)
                    out.diffs('book-data', d, ctx)
                elif op in ('loaded_i', 'loaded_n'):
                    a = bk.sheet_loaded(k if op == 'loaded_i' else nm)
                    if bool(a) != (k in m.loaded):
                        out.bad('loaded', '%s: %r, expected %r' % (ctx, a, k in m.loaded))
                elif op in ('load_i', 'load_n', 'get_i', 'get_n'):
                    fn = {'load_i': lambda: bk.sheet_by_index(k), 'load_n': lambda: bk.sheet_by_name(nm),
                          'get_i': lambda: bk[k], 'get_n': lambda: bk[nm]}[op]
                    if loadable(m, k):
                        loads += m.od
                        got(m, k, fn(), ctx)
                    else:
                        expect_exc(fn, x.XLRDError, ctx + ' after release')
                elif op == 'all':
                    if all(loadable(m, j) for j in range(m.n)):
                        loads += m.od
                        l = bk.sheets()
                        if len(l) != m.n:
                            out.bad('sheets', '%s: %d sheets' % (ctx, len(l)))
                        else:
                            for j, s in enumerate(l):
                                got(m, j, s, ctx)
                        l[:] = [None] * len(l)
                    else:
                        expect_exc(bk.sheets, x.XLRDError, ctx + ' after release')
                elif op == 'partial':
                    for j, s in enumerate(bk) if loadable(m, 0) else ():
                        got(m, j, s, ctx)
                        loads += m.od
                        if j >= k or (j + 1 < m.n and not loadable(m, j + 1)):
                            break
                elif op == 'itstart':
                    m.its.append([iter(bk), 0])
                elif op == 'itnext':
                    if not m.its:
                        continue
                    it = m.its[arg % len(m.its)]
                    j = it[1]
                    if j == m.n:
                        expect_exc(lambda: next(it[0]), StopIteration, ctx + ' of a finished iterator')
                        m.its.remove(it)
                    elif loadable(m, j):
                        loads += m.od
                        got(m, j, next(it[0]), ctx)
                        it[1] += 1
                    else:
                        expect_exc(lambda: next(it[0]), x.XLRDError, ctx + ' after release')
                        m.its.remove(it)
                elif op in ('unload_i', 'unload_n'):
                    bk.unload_sheet(k if op == 'unload_i' else nm)
                    m.loaded.pop(k, None)
                elif op == 'badname':
                    bad = 'no such sheet %d' % arg
                    fn = [lambda: bk.sheet_by_name(bad), lambda: bk[bad], lambda: bk.sheet_loaded(bad), lambda: bk.unload_sheet(bad)][arg % 4]
                    expect_exc(fn, x.XLRDError, ctx)
                elif op == 'badindex':
                    bad = m.n + arg // 3
                    fn = [lambda: bk.sheet_by_index(bad), lambda: bk[bad], lambda: bk.sheet_loaded(bad)][arg % 3]
                    expect_exc(fn, (IndexError, x.XLRDError), ctx)
                elif op == 'read':
                    if hist:
                        mm, j, s = hist[arg % len(hist)]
                        read(mm, j, s, ctx + ' (old sheet)')
                elif op == 'drop':
                    # a caller that lets go of its sheets
                    hist = [t for t in hist if t[1] != k or t[0] is not m]
                    was.clear()
                    gc.collect(0)
                elif op == 'release':
                    bk.release_resources()
                    m.released = True
                elif op == 'with':
                    with bk as q:
                        if q is not bk:
                            out.bad('with', 'the with statement gave another object')
                    m.released = True
                elif op == 'withexc':
                    try:
                        with bk:
                            raise KeyError('user')
                    except KeyError:
                        pass
                    m.released = True
            except Exception as e:
                lib.guard(e)
                out.bad('exception', '%s raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                break
            for q in books:
                table(q, ctx)
            for mm, j, s in hist:
                if s.book is not mm.bk or s.number != j or s.name != mm.names[j]:
                    out.bad('sheet-of', '%s: sheet %d of its Book says it is sheet %r, %r, of %s Book' % (ctx, j, s.number, s.name, 'its' if s.book is mm.bk else 'another'))
                    break
        if not out.viol:
            for m, k, s in hist:
                read(m, k, s, 'at the end')
            for m in books:
                for k, s in m.loaded.items():
                    if m.bk.sheet_by_index(k) is not s:
                        out.bad('identity', 'at the end: sheet %d' % k)
        for m in books:
            m.bk.release_resources()
        out.world(w)
    for op in case['ops']:
        out.probe(op[1])
    if loads:
        out.sig = h(case['ops'], case['books'], stream.hex())
        out.inter = sorted(states)
    return out
