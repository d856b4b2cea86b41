"""C08: damaged bytes cause an ordinary error or a Book, within bounded work."""
import gc
import io

from .. import damage, gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C08'
QUICK, THOROUGH = 20000, 10 ** 7
CASE_TIMEOUT = 100
RULE = ('A random workbook in a random container (or none) is damaged by seeded bad storage: bytes of the file, fields of records before they are stored, entries of the '
        'container structures. It is opened and every sheet loaded under a step budget, with standard streams watched; then an undamaged workbook is opened in the '
        'same process and compared with the reference model. Non-trivial: the damage changed at least one byte. Distinct: by the damaged image and options.')
MEASURE = 'distinct (kind of damage, outcome class, exception type and origin)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded storage damage under a step budget, standard streams and the next open as invariants'
NOTE = ('Seeded search over damage patterns. Work is counted as loop iterations and calls of library code, and bounded by 3 million plus 500 per byte of the file, '
        'plus the largest sheet area (65536 x 256) for each hyperlink record when formatting is read.')


def gen(rng, tier, i):
    opts = lib.gen_opts(rng, od=rng.random() < 0.3)
    if rng.random() < 0.08:
        opts['ignore'] = 1
    if rng.random() < 0.1:
        opts['verbosity'] = rng.choice([1, 2])
    wb = G.gen_wb(rng, fmt=opts['fmt'], maxcells=rng.choice([3, 12, 30]))
    plan = ole.gen_plan(rng, rng.choice([1500, 4096, 6000])) if rng.random() < 0.7 else None
    c = {'wb': wb, 'plan': plan, 'opts': opts, 'way': rng.choice(['bytes', 'bytes', 'mmap'])}
    m = rng.random()
    if m < 0.35:
        c['rec'] = damage.gen_rec(rng)
    elif m < 0.7 and plan is not None:
        c['ole'] = damage.gen_ole(rng)
    else:
        c['raw'] = damage.gen(rng)
    if rng.random() < 0.1:
        c['raw'] = damage.gen(rng)
    c['next'] = G.gen_wb(rng, fmt=False, maxcells=4, nsheets=1)
    return c


def damaged(case):
    stream, info, exp = lib.model_of(case)
    s2 = damage.apply_rec(stream, case['rec']) if case.get('rec') else stream
    data, im = lib.image_of(case, s2)
    good = data if s2 is stream else None
    if case.get('ole') and im is not None:
        data = damage.apply_ole(data, im, case['ole'])
    if case.get('raw'):
        data = damage.apply(data, case['raw'])
    return data, data != good


def run(case):
    out = Out()
    data, changed = damaged(case)
    fmt, od = bool(case['opts'].get('fmt')), bool(case['opts'].get('od'))
    hl = sum(1 for s in case['wb']['sheets'] for it in s.get('items') or () if it[0] == 'hlink') if fmt else 0
    if hl == 0 and fmt and case.get('rec'):
        hl = 0
    budget = 3000000 + 500 * len(data) + hl * (1 << 24) * 2
    res = None
    with world.World() as w:
        if not data and case['way'] == 'bytes':
            return out
        log = io.StringIO()
        used = 0
        try:
            with monitor.Budget(budget) as b:
                bk = lib.open_book(w, data, case['opts'], case['way'], log=log)
                res = ['book']
                for k in range(bk.nsheets):
                    try:
                        bk.sheet_by_index(k)
                    except Exception as e:
                        lib.guard(e)
                        if not od:
                            out.bad('late', 'an eager Book: sheet_by_index(%d) raised %s' % (k, lib.show(e)))
                        res.append(type(e).__name__)
                        if isinstance(e, MemoryError):
                            lib.drop(e)
                            gc.collect()
            used = b.n
            bk.release_resources()
        except Exception as e:
            lib.guard(e)
            res = ['raised', type(e).__name__, lib.where(e).split(' <- ')[0]]
            if isinstance(e, MemoryError):
                # the rest of this process gets it back
                lib.drop(e)
                bk = None
                gc.collect()
            out.probe('refused')
        except monitor.BudgetExceeded as e:
            out.bad('unbounded', 'opening %d bytes: %s' % (len(data), e))
            return out
        except BaseException as e:
            out.bad('base-exception', '%s at %s' % (lib.show(e), lib.where(e)))
            return out
        lib.no_output(out, 'opening')
        out.probe('read in spite of the damage', res[0] == 'book')
        out.probe('steps over 1/10 of the budget', used * 10 > budget)
        bk = None
        try:
            stream, info, exp = lib.model_of({'wb': case['next']}, {})
            nb = lib.open_book(w, stream, {}, 'bytes')
            out.diffs('next', observe.against(exp, observe.snapshot(nb, False)), 'the next workbook')
        except Exception as e:
            lib.guard(e)
            out.bad('next', 'the next, undamaged workbook: %s at %s' % (lib.show(e), lib.where(e)))
        out.calls += 2
    kinds = sorted(set(op[0] for key in ('rec', 'ole', 'raw') for op in case.get(key) or ()))
    for key in ('rec', 'ole', 'raw'):
        for op in case.get(key) or ():
            out.fault({'rec': 'record ', 'ole': 'container ', 'raw': 'bytes '}[key] + op[0])
    if changed:
        out.sig = h(case)
        out.inter = h(kinds, res)
    return out
