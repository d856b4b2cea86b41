"""C22: damage inside one sheet does not reach the others."""
import hashlib

from .. import damage, gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C22'
QUICK, THOROUGH = 8000, 10 ** 7
CASE_TIMEOUT = 100
RULE = ('The substream of one worksheet of a multi-sheet workbook is damaged by seeded bad storage (fields, lengths and codes of records, records lost, repeated or swapped, '
        'flipped, overwritten, zeroed or lost bytes, the whole sheet), in place. A history of loads (by index, name, iteration, all at once), repeats, unloads and reads '
        'over on-demand Books of the file is checked step by step: the damaged sheet may raise any ordinary exception, every other sheet and the book data equal the '
        'reference model. Non-trivial: the damage changed the sheet and another sheet was read after an attempt on it. Distinct: by damaged stream, options and history.')
MEASURE = 'distinct (kinds of damage, how loading the damaged sheet ended, exception type and origin)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded damage confined to one sheet, histories of loads checked against a reference model after each step'
NOTE = ('Seeded search over damage patterns of one sheet and histories of up to 14 operations on up to 6 sheets. The damaged sheet keeps its place and length in the stream.')


def gen(rng, tier, i):
    opts = lib.gen_opts(rng, od=rng.random() < 0.9)
    if rng.random() < 0.1:
        opts['verbosity'] = rng.choice([1, 2])
    wb = G.gen_wb(rng, v=rng.choice([80, 80, 80, 70, 50]), fmt=opts['fmt'], nsheets=rng.choice([2, 2, 3, 4, 6]), maxcells=rng.choice([3, 8, 20]), min_cells=1,
                  names=rng.random() < 0.4)
    real = [k for k, s in enumerate(wb['sheets']) if s.get('type', 0) == 0]
    if rng.random() < 0.3:
        # BIFF 5 and 7 repeat the country codes in every sheet
        c = wb.get('country') or [44, 1]
        if rng.random() < 0.5:
            wb['country'] = c
        for k in real:
            it = wb['sheets'][k]['items']
            it.insert(rng.randrange(len(it) + 1), ['country', list(c)])
    m = rng.random()
    dmg = {}
    if m < 0.65:
        dmg['rec'] = damage.gen_rec(rng)
        if rng.random() < 0.15:
            dmg['rec'].append(['code', rng.randrange(1 << 16), rng.choice([0x8C, 0xE0, 0x31, 0x41E, 0x293, 0x92, 0x42, 0x22, 0x2F, 0x5C, 0x18, 0x17, 0x1AE, 0xFC, 0x85])])
        if rng.random() < 0.15:
            dmg['rec'].append(['field', rng.randrange(1 << 16), 0, rng.choice(damage.VALUES)])
    elif m < 0.92:
        dmg['raw'] = damage.gen(rng)
    else:
        dmg['fill'] = rng.choice([0, 255, 0xE5, 10])
    victim = rng.randrange(len(real))
    ops = []
    for _ in range(rng.choice([2, 4, 6, 10, 14])):
        op = rng.choice(['load', 'load', 'load', 'name', 'victim', 'victim', 'all', 'iter', 'unload', 'read', 'book', 'reopen'])
        ops.append([op, rng.randrange(6)])
    if rng.random() < 0.8:
        ops.insert(rng.randrange(len(ops)), ['victim', 0])
    return {'wb': wb, 'opts': opts, 'victim': victim, 'dmg': dmg, 'ops': ops, 'way': rng.choice(['bytes', 'mmap', 'read']),
            'plan': ole.gen_plan(rng, rng.choice([3000, 6000])) if rng.random() < 0.5 else None}


def damaged(case, stream, info):
    wb, dmg = case['wb'], case['dmg']
    real = [k for k, s in enumerate(wb['sheets']) if s.get('type', 0) == 0]
    a, b = info['sheets'][real[case['victim'] % len(real)]]
    if dmg.get('rec'):
        stream = damage.apply_rec(stream, dmg['rec'], a, b, True)
    if dmg.get('raw'):
        part = damage.apply(stream[a:b], dmg['raw'])[:b - a]
        stream = stream[:a] + part + bytes(b - a - len(part)) + stream[b:]
    if dmg.get('fill') is not None:
        stream = stream[:a] + bytes([dmg['fill']]) * (b - a) + stream[b:]
    return stream


def run(case):
    out = Out()
    lib.req(case['wb']['v'] >= 50)
    stream, info, exp = lib.model_of(case)
    n = len(exp['sheets'])
    bad = case['victim'] % n
    s2 = damaged(case, stream, info)
    changed = s2 != stream
    data, im = lib.image_of(case, s2)
    opts, fmt = case['opts'], bool(case['opts'].get('fmt'))
    od = bool(opts.get('od'))
    budget = 3000000 + 500 * len(data) + (len(s2) // 30 + 1) * (1 << 25) * int(fmt)
    ends = set()
    tried = after = False
    cost = 0
    with world.World() as w:
        p = w.put('b.xls', data)

        def call(fn):
            """-> (result, exception) of a call that may touch the damaged sheet"""
            nonlocal cost
            try:
                with monitor.Budget(budget) as b:
                    r = fn()
                cost += b.n
                return r, None
            except Exception as e:
                cost += b.n
                lib.guard(e)
                ends.add('%s %s' % (type(e).__name__, lib.where(e).split(' <- ')[0]))
                lib.drop(e)
                if isinstance(e, MemoryError):
                    raise lib.OutOfMemory()
                return None, e

        def read(k, s, ctx):
            d = observe.against_sheet(exp['sheets'][k], observe.obs_sheet(s, fmt))
            if d:
                out.bad('wrong-sheet', '%s, sheet %d: %s' % (ctx, k, '; '.join(d[:3])))

        def book(bk, ctx):
            g = observe.obs_book(bk, fmt)
            d = []
            for key in ('fonts', 'formats', 'xfs', 'styles', 'palette', 'names'):
                if key in exp:
                    observe.diff(exp[key], g[key], key, subset=key in ('fonts', 'xfs', 'names'), out=d)
            eb = dict(exp['book'])
            if not any(eb['countries']):
                eb.pop('countries')
            observe.diff(eb, g['book'], 'book', subset=True, out=d)
            out.diffs('book-data', d, ctx)

        def fresh():
            return call(lambda: lib.open_book(w, data, opts, case['way'], path=p))
        bk, e = fresh()
        if e is not None:
            if od:
                out.bad('open', 'the on-demand Book: %s at %s' % (lib.show(e), lib.where(e)))
            elif changed:
                out.probe('eager open refused')
                opts = dict(opts, od=1)
                od = True
                tried = True
                bk, e = fresh()
                if e is not None:
                    out.bad('open', 'the on-demand Book: %s at %s' % (lib.show(e), lib.where(e)))
            else:
                out.bad('open', 'undamaged: %s at %s' % (lib.show(e), lib.where(e)))
            if out.viol:
                return out
        names = bk.sheet_names()
        if names != [s['name'] for s in exp['sheets']]:
            out.bad('names', '%r' % (names,))
            return out
        have = {}
        first = []
        attempts = 0

        def got(k, s, ctx):
            nonlocal after
            if k == bad:
                return
            if k in have and have[k] is s:
                return
            have[k] = s
            read(k, s, ctx)
            after = after or tried
        for step, (op, arg) in enumerate(case['ops']):
            if out.viol:
                break
            k = bad if op == 'victim' else arg % n
            ctx = 'step %d %s %d' % (step, op, k)
            if op in ('victim', 'all', 'iter') or k == bad:
                attempts += 1
                if attempts > 4 or cost > 20000000:
                    continue
            if op in ('load', 'name', 'victim'):
                fn = (lambda: bk.sheet_by_name(names[k])) if op == 'name' else (lambda: bk.sheet_by_index(k))
                s, e = call(fn)
                if k == bad:
                    tried = True
                    if e is None:
                        ends.add('loaded')
                        fate = ['loaded', observe.obs_sheet(s, fmt) if s.nrows * s.ncols < 100000 else [s.nrows, s.ncols]]
                    else:
                        fate = ['refused', type(e).__name__]
                    if first and first[0][0] != fate[0]:
                        out.bad('fate', '%s: the damaged sheet is %s (%s), at first it was %s (%s)' % (
                            ctx, fate[0], str(fate[1])[:60], first[0][0], str(first[0][1])[:60]))
                    elif first:
                        out.diffs('fate', observe.diff(first[0][1], fate[1]), ctx + ', compared with the first time')
                    else:
                        first.append(fate)
                    if e is not None and bk.sheet_loaded(bad):
                        out.bad('loaded', '%s failed but the sheet is reported as loaded' % ctx)
                elif e is not None:
                    out.bad('exception', '%s raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                else:
                    got(k, s, ctx)
            elif op in ('all', 'iter'):
                def everything():
                    if op == 'all':
                        return bk.sheets()
                    l = []
                    for s in bk:
                        l.append(s)
                    return l
                l, e = call(everything)
                tried = True
                if e is None:
                    for j, s in enumerate(l):
                        got(j, s, ctx)
                elif not changed:
                    out.bad('exception', '%s raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                else:
                    for j in range(n):
                        if j != bad and bk.sheet_loaded(j):
                            got(j, bk.sheet_by_index(j), ctx)
            elif op == 'unload':
                if od:
                    bk.unload_sheet(k)
                    have.pop(k, None)
            elif op == 'read':
                for j, s in have.items():
                    read(j, s, ctx)
            elif op == 'book':
                book(bk, ctx)
            elif op == 'reopen':
                nb, e = fresh()
                if e is None:
                    bk.release_resources()
                    bk = nb
                    have.clear()
                elif od or not changed:
                    out.bad('open', '%s: %s at %s' % (ctx, lib.show(e), lib.where(e)))
        if not out.viol:
            for k in range(n):
                if k != bad:
                    s, e = call(lambda: bk.sheet_by_index(k))
                    if e is not None:
                        out.bad('exception', 'at the end: sheet %d raised %s at %s' % (k, lib.show(e), lib.where(e)))
                        break
                    got(k, s, 'at the end')
            for k, s in have.items():
                read(k, s, 'at the end')
            book(bk, 'at the end')
        bk.release_resources()
        out.world(w)
        out.calls = len(case['ops'])
    for key in ('rec', 'raw'):
        for op in case['dmg'].get(key) or ():
            out.fault({'rec': 'record ', 'raw': 'bytes '}[key] + op[0])
    if case['dmg'].get('fill') is not None:
        out.fault('whole sheet overwritten')
    out.probe('damaged sheet loaded all the same', 'loaded' in ends)
    if changed and tried and after:
        out.sig = h(hashlib.sha1(s2).hexdigest(), case['ops'], opts)
        kinds = sorted(set(op[0] for key in ('rec', 'raw') for op in case['dmg'].get(key) or ()))
        out.inter = h(kinds, sorted(ends))
    return out
