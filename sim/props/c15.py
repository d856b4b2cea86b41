"""C15: reading is pure: queries agree with each other and change nothing."""
import io

from .. import gen as G, lib, observe, ole, world
from ..lib import Out, h

ID = 'C15'
QUICK, THOROUGH = 14000, 10 ** 7
RULE = ('A history of up to 60 read operations (every accessor, every slice form with bounds in and around the valid range, partly consumed row iterators, modification of '
        'every returned list, releases and reloads in between) on the sheets of one or two Books, each answer compared with the grid of the reference model. Non-trivial: '
        'at least one cell was read. Distinct: by history, options and stream.')
MEASURE = 'distinct (accessor, sign of the bounds, emptiness of the answer) triples'
TECHNIQUE = 'deterministic simulation: seeded histories of queries, each checked against an executable reference model'
NOTE = 'Seeded search over query histories; row and column indexes are non-negative, slice bounds may have any sign. In ragged sheets columns are only asked for rows that reach them.'
STUBBED = 'file writer (simulated)'
OPS = ['cell', 'cell', 'value', 'type', 'xf', 'row', 'row_values', 'row_values', 'row_types', 'row_types', 'row_slice', 'row_slice', 'col', 'col_values', 'col_values', 'col_types', 'col_types', 'col_slice', 'col_slice',
       'rows', 'itstart', 'itnext', 'itnext', 'item', 'item2', 'row_len', 'dims', 'sheets', 'names', 'width', 'outside', 'maps', 'dump', 'repr', 'edit']


def gen(rng, tier, i):
    fmt = int(rng.random() < 0.4)
    wb = G.gen_wb(rng, fmt=fmt, maxcells=rng.choice([3, 8, 20, 30]), min_cells=1, far=0.03)
    opts = lib.gen_opts(rng, fmt=fmt)
    ops = []
    for _ in range(rng.choice([5, 15, 30, 60])):
        op = rng.choice(OPS)
        ops.append([op, rng.randrange(2), rng.randrange(6), rng.randrange(1000), rng.randrange(1000),
                    rng.choice([None, None, 1, 1, 1]) and rng.randrange(-1000, 1000), rng.choice([None, 1, 1]) and rng.randrange(-1000, 1000), int(rng.random() < 0.4)])
    if rng.random() < 0.2:
        ops.insert(rng.randrange(len(ops) + 1), ['release', rng.randrange(2), 0, 0, 0, None, None, 0])
    return {'wb': wb, 'opts': opts, 'plan': ole.gen_plan(rng, 4000) if rng.random() < 0.3 else None, 'way': rng.choice(lib.WAYS), 'two': int(rng.random() < 0.3), 'ops': ops}


def grid(e):
    rows = []
    for n, times in e['row_len']:
        for _ in range(times):
            rows.append([[0, 's:']] * n)
    rows = [list(r) for r in rows]
    for key, tv in e['cells'].items():
        r, c = map(int, key.split(','))
        rows[r][c] = tv
    return rows


def bound(b, n):
    """a bound in and around -n..n"""
    if b is None:
        return None
    return b % (2 * n + 7) - n - 3


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    data, im = lib.image_of(case, stream)
    if any(e['nrows'] * e['ncols'] > 100000 for e in exp['sheets']):
        return out              # far corners are for other checks
    fmt = bool(case['opts'].get('fmt'))
    ragged = bool(case['opts'].get('ragged'))
    inter = set()
    touched = 0
    val = observe.val
    with world.World() as w:
        p = w.put('b.xls', data)
        bks = [lib.open_book(w, data, case['opts'], case['way'], path=p) for _ in range(1 + case.get('two', 0))]
        n = len(exp['sheets'])
        grids = [grid(e) for e in exp['sheets']]
        shs = [bk.sheets() for bk in bks]
        xfs = {}
        widths = {}
        reprs = {}
        its = []

        def pair(c):
            return [c.ctype, val(c.value)]

        def xf(j, k, r, c, got, ctx):
            """xf indexes: as stored where a cell was stored; otherwise always the same"""
            key = '%d,%d' % (r, c)
            want = (exp['sheets'][k].get('xf') or {}).get(key)
            if want is None:
                want = xfs.setdefault((k, r, c), got)
            if got != want:
                out.bad('xf', '%s: cell (%d,%d) xf_index %r, expected %r' % (ctx, r, c, got, want))

        def cells(j, k, got, want, pos, ctx):
            if [pair(c) for c in got] != want:
                out.bad('cells', '%s: %s, expected %s' % (ctx, observe.short([pair(c) for c in got]), observe.short(want)))
                return
            if fmt:
                for c, (r, cc) in zip(got, pos):
                    xf(j, k, r, cc, c.xf_index, ctx)

        for step, (op, b, s, a1, a2, b1, b2, mut) in enumerate(case['ops']):
            if out.viol:
                break
            j, k = b % len(bks), s % n
            bk, sh, g, e = bks[j], shs[j][k], grids[k], exp['sheets'][k]
            nr, nc = e['nrows'], e['ncols']
            ctx = 'step %d, sheet %d: %s' % (step, k, op)
            out.calls += 1
            if op == 'release':
                bk.release_resources()
                continue
            if op == 'dims':
                if (sh.nrows, sh.ncols) != (nr, nc):
                    out.bad('dims', '%s: %d x %d, expected %d x %d' % (ctx, sh.nrows, sh.ncols, nr, nc))
                continue
            if op == 'sheets':
                l = bk.sheets()
                if len(l) != n or any(x is not y for x, y in zip(l, shs[j])):
                    out.bad('sheets', '%s: not the same sheets again' % ctx)
                if mut:
                    l.reverse()
                    del l[1:]
                continue
            if op == 'names':
                l = bk.sheet_names()
                if l != [x['name'] for x in exp['sheets']]:
                    out.bad('names', '%s: %r' % (ctx, l))
                if mut:
                    l.append('x')
                    l[0] = 'y'
                continue
            if op == 'maps':
                o = observe.obs_sheet(sh, fmt)
                out.diffs('maps', observe.against_sheet(e, o), ctx)
                continue
            if op == 'dump':
                f = io.StringIO()
                (sh if a1 % 4 else bk).dump(f, *(['h', 'f', 2] if a2 % 3 else [])[:a2 % 4])
                if not f.getvalue():
                    out.bad('dump', '%s wrote nothing' % ctx)
                continue
            if op == 'itstart':
                its.append([iter(sh) if a1 % 2 else sh.get_rows(), j, k, 0])
                continue
            if op == 'itnext':
                if its:
                    it = its[a1 % len(its)]
                    j, k, r = it[1:]
                    try:
                        row = next(it[0])
                    except StopIteration:
                        if r != exp['sheets'][k]['nrows']:
                            out.bad('rows', '%s: iteration over sheet %d ended after %d rows of %d' % (ctx, k, r, exp['sheets'][k]['nrows']))
                        its.remove(it)
                        continue
                    if r >= exp['sheets'][k]['nrows']:
                        out.bad('rows', '%s: iteration over sheet %d went past %d rows' % (ctx, k, r))
                        continue
                    cells(j, k, row, grids[k][r], [(r, c) for c in range(len(row))], ctx + ' row %d' % r)
                    it[3] += 1
                continue
            if op == 'width':
                if fmt and nc:
                    c = a2 % max(1, nc)
                    x = sh.computed_column_width(c)
                    if widths.setdefault((k, c), x) != x:
                        out.bad('width', '%s: column %d %r, before %r' % (ctx, c, x, widths[k, c]))
                elif not fmt:
                    for fn in (lambda: sh.computed_column_width(0), lambda: sh.cell_xf_index(0, 0)):
                        try:
                            x = fn()
                            out.bad('width', '%s: %r without formatting_info' % (ctx, x))
                        except lib.xlrd.XLRDError:
                            pass
                continue
            if op == 'outside':
                r, c = (nr + a1 % 3, 0) if a2 % 2 or not nr else (a1 % nr, nc + a2 % 5)
                fn = [lambda: sh.cell(r, c), lambda: sh.cell_value(r, c), lambda: sh.cell_type(r, c), lambda: sh[r, c]][(a1 // 3) % 4]
                try:
                    x = fn()
                    out.bad('outside', '%s: (%d,%d) of %d x %d gave %r' % (ctx, r, c, nr, nc, x))
                except IndexError:
                    pass
                continue
            if not nr:
                continue
            r = a1 % nr
            touched += 1
            m = len(g[r])
            if op == 'row_len':
                if sh.row_len(r) != m:
                    out.bad('row_len', '%s: row %d: %d, expected %d' % (ctx, r, sh.row_len(r), m))
            elif op in ('cell', 'value', 'type', 'xf', 'item2'):
                if not m:
                    continue
                c = a2 % m
                want = g[r][c]
                if op in ('cell', 'item2'):
                    cl = sh.cell(r, c) if op == 'cell' else sh[r, c]
                    cells(j, k, [cl], [want], [(r, c)], ctx + ' (%d,%d)' % (r, c))
                elif op == 'value':
                    x = val(sh.cell_value(r, c))
                    if x != want[1]:
                        out.bad('value', '%s (%d,%d): %r, expected %r' % (ctx, r, c, x, want[1]))
                elif op == 'type':
                    x = sh.cell_type(r, c)
                    if x != want[0]:
                        out.bad('type', '%s (%d,%d): %r, expected %r' % (ctx, r, c, x, want[0]))
                elif fmt:
                    xf(j, k, r, c, sh.cell_xf_index(r, c), ctx)
            elif op in ('repr', 'edit'):
                if not m:
                    continue
                c = a2 % m
                cl = sh.cell(r, c)
                if op == 'repr':
                    x = repr(cl)
                    if x != repr(sh.row(r)[c]) or x != reprs.setdefault((k, r, c), x):
                        out.bad('repr', '%s: cell (%d,%d) is shown as %s and as %s' % (ctx, r, c, x[:60], reprs[k, r, c][:60]))
                else:
                    for y in [cl] + sh.row(r) + sh.col_slice(c, r, r + 1) + sh.row_slice(r):
                        y.value, y.ctype, y.xf_index = 'changed by the caller', 9, -7
                    cells(j, k, [sh.cell(r, c)], [g[r][c]], [(r, c)], ctx + ' (%d,%d)' % (r, c))
            elif op in ('row', 'item', 'rows', 'row_values', 'row_types', 'row_slice'):
                if op == 'rows':
                    l = list(sh)
                    if len(l) != nr:
                        out.bad('rows', '%s: %d rows, expected %d' % (ctx, len(l), nr))
                        continue
                    for r, row in enumerate(l):
                        cells(j, k, row, g[r], [(r, c) for c in range(len(row))], ctx + ' row %d' % r)
                    if mut:
                        l.clear()
                    continue
                if op in ('row', 'item'):
                    lo, hi = None, None
                    l = sh.row(r) if op == 'row' else sh[r]
                else:
                    lo, hi = bound(b1, nc), bound(b2, nc)
                    fn = getattr(sh, op)
                    l = fn(r) if lo is None and hi is None else fn(r, end_colx=hi) if lo is None else fn(r, lo) if hi is None else fn(r, lo, hi)
                want = g[r][lo if lo is not None else 0:hi]
                pos = [(r, c) for c in range(m)][lo if lo is not None else 0:hi]
                self_check(out, op, l, want, lambda: cells(j, k, l, want, pos, '%s(%d, %r, %r)' % (ctx, r, lo, hi)), '%s(%d, %r, %r)' % (ctx, r, lo, hi))
                inter.add('%s %s %s %d' % (op, lo is None or lo < 0, hi is None or hi < 0, bool(want)))
                if mut:
                    spoil(l)
            else:
                lo, hi = (None, None) if op == 'col' and a1 % 2 else (bound(b1, nr), bound(b2, nr))
                rows = list(range(nr))[lo if lo is not None else 0:hi]
                width = min([len(g[r]) for r in rows] or [nc])
                if not width:
                    continue
                c = a2 % width
                fn = getattr(sh, op)
                l = fn(c) if lo is None and hi is None else fn(c, end_rowx=hi) if lo is None else fn(c, lo) if hi is None else fn(c, lo, hi)
                want = [g[r][c] for r in rows]
                what = '%s(%d, %r, %r)' % (ctx, c, lo, hi)
                self_check(out, op, l, want, lambda: cells(j, k, l, want, [(r, c) for r in rows], what), what)
                inter.add('%s %s %s %d' % (op, lo is None or lo < 0, hi is None or hi < 0, bool(want)))
                if mut:
                    spoil(l)
            out.probe(op)
        if not out.viol:
            for j, bk in enumerate(bks):
                for k in range(n):
                    out.diffs('changed', observe.against_sheet(exp['sheets'][k], observe.obs_sheet(shs[j][k], fmt)), 'after the queries, sheet %d' % k)
        for bk in bks:
            bk.release_resources()
        out.world(w)
    out.probe('ragged', ragged)
    if touched:
        out.sig = h(case['ops'], case['opts'], stream.hex())
        out.inter = sorted(inter)
    return out


def spoil(l):
    """the caller does what it likes with its own list"""
    try:
        l.reverse()
        del l[1:]
        if l:
            l[0] = l[0]
            l.append(l[0])
            del l[:]
    except (AttributeError, TypeError):
        pass                    # an immutable sequence


def self_check(out, op, l, want, cells, ctx):
    if op in ('row', 'item', 'row_slice', 'col', 'col_slice'):
        cells()
    elif op.endswith('values'):
        x = [observe.val(v) for v in l]
        if x != [v for t, v in want]:
            out.bad('values', '%s: %s, expected %s' % (ctx, observe.short(x), observe.short([v for t, v in want])))
    else:
        x = list(l)
        if x != [t for t, v in want]:
            out.bad('types', '%s: %s, expected %s' % (ctx, observe.short(x), observe.short([t for t, v in want])))
