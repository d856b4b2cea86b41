"""C13: replacing the file while it is open or being opened never mixes versions."""
import io

from .. import gen as G, lib, observe, ole, world, zips
from ..lib import Out, h

ID = 'C13'
QUICK, THOROUGH = 9000, 10 ** 7
RULE = ('A history of opens (every delivery by path, eager and on demand), loads, unloads, inspections and record counts on one path while another process replaces the file '
        'by rename, unlink or unlink-and-create, between calls and at seeded system calls inside them. Every Book must equal exactly one of the versions that were '
        'current while it was opened, and stay so. Non-trivial: at least one replacement took effect inside a call, or between a call and a later one on the same Book. '
        'Distinct: by history, replacement points and versions.')
MEASURE = 'distinct (operation, position of the replacement, version seen) triples'
TECHNIQUE = 'deterministic simulation with fault injection: a second simulated process acts at seeded system calls, histories checked against a version model'
NOTE = 'Seeded search over replacement points (every system call of the open path) and histories of up to 12 operations over up to 4 versions of the file. Replacement is atomic (rename), as in the statement.'


def gen(rng, tier, i):
    fmt = int(rng.random() < 0.3)
    vers = []
    base = G.gen_wb(rng, v=rng.choice([80, 80, 50, 70, 40]), fmt=fmt, nsheets=rng.choice([1, 2, 3]), maxcells=rng.choice([2, 6]), min_cells=1)
    for _ in range(rng.choice([2, 2, 3, 4])):
        m = rng.random()
        if m < 0.1:
            vers.append({'raw': rng.choice(['', zips.build({'members': [['xl/workbook.xml', '3c61', 0]]}).hex(), '68656c6c6f2c20776f726c64' * 3, 'd0cf11e0a1b11ae1' + '00' * 600])})
        elif m < 0.4:
            # the same workbook stored otherwise: only what differs in the container
            vers.append({'wb': base, 'plan': ole.gen_plan(rng, 3000) if rng.random() < 0.7 else None})
        else:
            vers.append({'wb': G.gen_wb(rng, v=rng.choice([80, 80, 50, 70, 40]), fmt=fmt, nsheets=rng.choice([1, 2, 3]), maxcells=rng.choice([2, 6]), min_cells=1),
                         'plan': ole.gen_plan(rng, 3000) if rng.random() < 0.6 else None})
    ops = []
    for _ in range(rng.choice([2, 4, 8, 12])):
        op = rng.choice(['open', 'open', 'open', 'load', 'load', 'load', 'all', 'unload', 'inspect', 'swap', 'read', 'count', 'release'])
        swaps = []
        if op in ('open', 'inspect', 'count', 'load', 'all') and rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 3])):
                swaps.append([rng.choice([rng.randrange(4), rng.randrange(14), rng.randrange(30)]), rng.randrange(-1 if rng.random() < 0.2 else 0, len(vers)),
                              rng.choice(['rename', 'rename', 'unlink'])])
        if op == 'swap':
            swaps = [[0, rng.randrange(-1 if rng.random() < 0.2 else 0, len(vers)), rng.choice(['rename', 'unlink'])]]
        d = {'op': op, 'k': rng.randrange(6), 'b': rng.randrange(4), 'swaps': swaps}
        if op == 'open':
            d['opts'] = lib.gen_opts(rng, fmt=fmt, od=rng.random() < 0.6)
            d['way'] = rng.choice(['mmap', 'mmap', 'read'])
        ops.append(d)
    if not any(d['op'] == 'open' for d in ops):
        ops[0] = {'op': 'open', 'k': 0, 'b': 0, 'swaps': ops[0]['swaps'], 'opts': lib.gen_opts(rng, fmt=fmt, od=True), 'way': 'mmap'}
    return {'vers': vers, 'ops': ops}


class V(object):
    good = False


def run(case):
    out = Out()
    x = lib.xlrd
    vers = []
    seen = set()
    for d in case['vers']:
        v = V()
        if 'raw' in d:
            v.data = bytes.fromhex(d['raw'])
            lib.req(v.data[:2] != b'PK' or zips.intact(v.data))
        else:
            v.stream, v.info, e = lib.model_of({'wb': d['wb']}, {})
            v.data, im = lib.image_of(d, v.stream)
            v.good = True
            v.wb = d['wb']
        vers.append(v)
    lib.req(any(v.good for v in vers))
    touched = 0
    with world.World() as w:
        for j, v in enumerate(vers):
            p = w.put('v%d.xls' % j, v.data)
            o = io.StringIO()
            try:
                x.count_records(p, o)
                v.count = o.getvalue()
            except Exception as e:
                lib.guard(e)
                v.count = None
            v.kind = x.inspect_format(path=p)
        cur = [0]
        path = w.put('b.xls', vers[0].data)
        window = []

        def swap(ver, how):
            import os
            if ver < 0:
                if os.path.exists(path):
                    os.unlink(path)
            else:
                ver %= len(vers)
                if how == 'unlink' and not os.path.exists(path):
                    how = 'rename'
                w.replace('b.xls', vers[ver].data, how)
            cur[0] = ver
            window.append(ver)
            out.fault('file removed' if ver < 0 else 'file replaced by ' + how)
        exps = {}

        def exp(j, o):
            key = (j, o.get('fmt', 0), o.get('ragged', 0))
            if key not in exps:
                exps[key] = lib.biff.expect(vers[j].wb, bool(o.get('fmt')), bool(o.get('ragged')))
            return exps[key]

        def booklevel(e, bk, fmt):
            g = observe.obs_book(bk, fmt)
            d = []
            observe.diff(e['book'], g['book'], 'book', subset=True, out=d)
            for key in ('fonts', 'formats', 'xfs', 'styles', 'palette', 'names'):
                if key in e:
                    observe.diff(e[key], g[key], key, subset=key in ('fonts', 'xfs', 'names'), out=d)
            return d
        books = []
        for step, d in enumerate(case['ops']):
            if out.viol:
                break
            op = d['op']
            if op == 'swap':
                for n, ver, how in d['swaps']:
                    swap(ver, how)
                continue
            del window[:]
            window.append(cur[0])
            w.actions = [('any', w.total + n, lambda _w, ver=ver, how=how: swap(ver, how)) for n, ver, how in d['swaps']]
            B = books[d['b'] % len(books)] if books else None
            ctx = 'step %d %s' % (step, op)
            out.calls += 1
            res, err = None, None
            start = w.total
            try:
                if op == 'open':
                    res = lib.open_book(w, None, d['opts'], d['way'], path=path)
                elif op == 'inspect':
                    res = [x.inspect_format(path=path)]
                elif op == 'count':
                    o = io.StringIO()
                    x.count_records(path, o)
                    res = [o.getvalue()]
                elif B is None:
                    continue
                elif op == 'load':
                    k = d['k'] % B['bk'].nsheets
                    if not (B['rel'] and k not in B['got']):
                        res = {k: B['bk'].sheet_by_index(k)}
                elif op == 'all':
                    if not B['rel']:
                        res = dict(enumerate(B['bk'].sheets()))
                elif op == 'unload':
                    if not B['rel']:
                        B['bk'].unload_sheet(d['k'] % B['bk'].nsheets)
                elif op == 'release':
                    B['bk'].release_resources()
                    B['rel'] = True
                    B['got'] = set(k for k in range(B['bk'].nsheets) if B['bk'].sheet_loaded(k))
                elif op == 'read':
                    res = dict(B['old'])
            except Exception as e:
                err = e
            w.actions = []
            if len(window) > 1:
                touched += 1
            ctx += ' while the file went through versions %r' % window
            allgood = all(v >= 0 and vers[v].good for v in window)
            if err is not None:
                if not (isinstance(err, FileNotFoundError) and -1 in window):
                    lib.guard(err)
                if op in ('open', 'count') and not allgood or op == 'inspect' and -1 in window:
                    out.probe('refused: a version in the window is not a workbook')
                    err = None
                    continue
                out.bad('exception', '%s raised %s at %s' % (ctx, lib.show(err), lib.where(err)))
                err = None
                break
            if op == 'open':
                fmt = bool(d['opts'].get('fmt'))
                cands, why = [], []
                for j in sorted(set(window)):
                    if j < 0 or not vers[j].good:
                        continue
                    e = exp(j, d['opts'])
                    df = booklevel(e, res, fmt)
                    if not df and not (res.on_demand):
                        df = observe.against(e, observe.snapshot(res, fmt))
                    if df:
                        why.append('version %d: %s' % (j, '; '.join(df[:2])))
                    else:
                        cands.append(j)
                if not cands:
                    out.bad('mixed', '%s: the Book is no version: %s' % (ctx, ' | '.join(why)))
                    break
                out.inter = (out.inter or []) + ['open %s %r %r' % (d['way'], [s[0] for s in d['swaps']], window.index(cands[0]))]
                books.append({'bk': res, 'o': d['opts'], 'fmt': fmt, 'cands': cands, 'old': [], 'rel': not res.on_demand, 'got': set(range(res.nsheets))})
            elif op in ('inspect', 'count'):
                okv = [vers[j].kind if op == 'inspect' else vers[j].count for j in window if j >= 0]
                if res[0] not in okv:
                    out.bad('mixed', '%s: %s gave %r' % (ctx, op, observe.short(res[0])))
            elif res:
                if B['cands'] and cur[0] not in B['cands']:
                    touched += 1
                for k, s in sorted(res.items()):
                    o = observe.obs_sheet(s, B['fmt'])
                    left, why = [], []
                    for j in B['cands']:
                        df = observe.against_sheet(exp(j, B['o'])['sheets'][k], o)
                        if df:
                            why.append('version %d: %s' % (j, '; '.join(df[:2])))
                        else:
                            left.append(j)
                    if not left:
                        out.bad('mixed', '%s: sheet %d is not of the version the Book was opened on: %s' % (ctx, k, ' | '.join(why)))
                        break
                    B['cands'] = left
                    B['old'].append((k, s))
        for B in books:
            B['bk'].release_resources()
        hd = w.held()
        if hd and not out.viol:
            out.bad('held', ', '.join(hd))
        out.world(w)
    if touched:
        out.sig = h(case)
        out.probe('replacements inside a call', touched)
    return out
