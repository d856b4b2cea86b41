"""C23: a compound document hands every stream out whole, in any order and however often."""
import mmap
import random
import struct

from .. import biff, lib, monitor, ole, world
from ..lib import Out, h

ID = 'C23'
QUICK, THOROUGH = 9000, 10 ** 7
RULE = ('A simulated allocator stores random streams (ordinary and mini, in storages too) in a container; a history of requests (get or locate, any stream, any order, '
        'repeated, any letter case, paths that do not exist, storages) goes to one CompDoc. Some requests are cut short at a random line by an interrupt or a memory error; '
        'in some cases the chains of some streams are mis-written, or the file ends early. Every answer is compared with what was stored. Non-trivial: a stream is asked for '
        'again, or after a cut or damaged one. Distinct: by layout, damage and history.')
MEASURE = 'distinct (history of requests and their outcomes, layout features)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded allocation histories, request histories, cuts and mis-written chains, compared with what was stored'
NOTE = ('Seeded search over layouts and histories of up to 16 requests. Directory entries themselves are intact (their damage is C09); chains are not rerouted into sectors '
        'of other streams, which no reader can tell apart in mini-sectors.')
SEEN = ['SummaryInformation', 'Workbook', 'x', 'nothing', '', '/', 'Root Entry', 'Workbook/x', 'MBD01234567/no', 'Book', 'MBD01234567/Workbook/Workbook',
        'MBD01234567/Workbook', 'st/Workbook', 'st/Book', 'MBD01234567/Book', 'st/x']


def gen(rng, tier, i):
    size = rng.choice([0, 1, 500, 4095, 4096, 4097, 9000, 30000])
    plan = ole.gen_plan(rng, max(size, 1), simple=0.03)
    if plan.get('minstd', 4096) == 0:
        plan['minstd'] = rng.choice([1, 64])
    ex = plan.setdefault('extra', [])
    used = set((x[0].lower(), x[2]) for x in ex) | {(plan.get('name', 'Workbook').lower(), None)}
    for _ in range(rng.choice([0, 1, 3, 8])):
        nm = rng.choice(['a', 'B', 'Z\xe9', '\u0416', '\x01Ole', 'CONTENTS', 'stream one', 'x' * 31])
        sto = rng.choice([None, None, 'MBD01234567', 'st', 'st', 'Workbook' if plan.get('name', 'Workbook').lower() != 'workbook' else 'A'])
        if (nm.lower(), sto) in used or sto is None and nm.lower() == 'a':
            continue
        used.add((nm.lower(), sto))
        ex.append([nm, rng.choice([0, 1, 63, 64, 65, 200, 4095, 4096, 8192, 20000]), sto, rng.random() < 0.5])
    if rng.random() < 0.002:
        # a directory of hundreds of entries
        for k in range(rng.choice([250, 510, 1030])):
            ex.append(['n%d' % k, rng.choice([0, 0, 1, 65]), rng.choice([None, 'MBD01234567']), 0])
        if plan.get('treemode') in ('list', 'rlist') and len(ex) > 600:
            plan['treemode'] = None
    dmg = []
    cut = None
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2, 3])):
            dmg.append([rng.randrange(8), rng.choice([-1, -1, 0, rng.randrange(1000)]), rng.choice(['self', 'beyond', 'far', 'neg', 'eoc']), rng.randrange(1000)])
    elif rng.random() < 0.2:
        cut = rng.choice([rng.random(), rng.random(), 1 - rng.random() * 0.05])
    ops = []
    for _ in range(rng.choice([2, 5, 9, 16])):
        ops.append([rng.choice(['get', 'locate']), rng.choice([rng.randrange(4), rng.randrange(4), rng.randrange(300), -1 - rng.randrange(len(SEEN))]),
                    rng.choice(['as', 'as', 'lower', 'upper'])] +
                   ([[rng.choice(['KeyboardInterrupt', 'MemoryError', 'Cut']), rng.random()]] if rng.random() < 0.15 else []))
    return {'size': size, 'plan': plan, 'dmg': dmg, 'cut': cut, 'ops': ops, 'way': rng.choice(['bytes', 'mmap']), 'debug': int(rng.random() < 0.1)}


class Cut(Exception):
    pass


def broken(im, data, ops):
    """-> (bytes, names of the streams whose chain is damaged)"""
    b = bytearray(data)
    bad = set()
    have = [s for s in im.streams if s['data']]
    if not have:
        return data, bad
    for which, j, how, x in ops:
        s = have[which % len(have)]
        c = s['chain']
        sid = c[j % len(c)]
        pl, nent, ss = im.place, im.nent, im.ss
        if s['mini']:
            tab = pl['ssat']
            limit = len(tab) * nent
        else:
            tab = pl['sat']
            limit = im.total
        v = {'self': c[x % (j % len(c) + 1)], 'beyond': limit + x % 3, 'far': 0x7FFFFFF0, 'neg': [-1, -3, -4, -5][x % 4], 'eoc': -2}[how]
        if how == 'eoc' and j % len(c) == len(c) - 1:
            continue
        off = im.base + tab[sid // nent] * ss + sid % nent * 4
        if off + 4 > len(b):
            continue
        struct.pack_into('<i', b, off, v)
        bad.add(s['path'])
    return bytes(b), bad


def run(case):
    from xlrd.compdoc import CompDoc
    out = Out()
    plan = case['plan']
    biff.req(plan.get('minstd', 4096) > 0)
    content = random.Random('%s' % case['size']).randbytes(case['size'])
    names = [(plan.get('name', 'Workbook').lower(), plan.get('main_in'))] + [(x[0].lower(), x[2] and x[2].lower()) for x in plan.get('extra') or ()]
    if plan.get('both'):
        names.append(('book', None))
    biff.req(len(set(names)) == len(names))
    stos = set(n[1] for n in names if n[1])
    biff.req(not any(n[1] is None and n[0] in stos and n[0] != 'workbook' for n in names))
    im = ole.build(content, plan)
    for s in im.streams:
        s['path'] = (s['storage'] + '/' if s['storage'] is not None else '') + s['name']
        s.setdefault('mini', False)
    data, bad = broken(im, im.data, case['dmg'])
    if case['cut'] is not None:
        data = data[:im.base + int((len(data) - im.base) * case['cut'])]
        for s in im.streams:
            bad.add(s['path'])
    truth = {s['path'].lower(): s for s in im.streams}
    sound = not bad
    mem = data
    if case['way'] == 'mmap' and data:
        mem = mmap.mmap(-1, len(data))
        mem[:] = data
    hist = []
    asked, again = set(), False
    with world.World() as w:
        log = lib.Log()
        budget = 3000000 + 500 * len(data)
        try:
            with monitor.Budget(budget):
                cd = CompDoc(mem, logfile=log, DEBUG=case['debug'])
            out.calls += 1
        except Exception as e:
            lib.guard(e)
            if not case['cut']:
                out.bad('refused', 'CompDoc raised %s at %s' % (lib.show(e), lib.where(e)))
            return out
        for step, op in enumerate(case['ops']):
            kind, which, style = op[:3]
            q = SEEN[(-1 - which) % len(SEEN)] if which < 0 else im.streams[which % len(im.streams)]['path']
            s = truth.get(q.lower())
            q = {'as': q, 'lower': q.lower(), 'upper': q.upper()}[style]
            if q.lower() != (s['path'].lower() if s else q.lower()):
                continue        # letters whose upper case is longer
            ctx = 'step %d %s(%r)' % (step, kind, q)

            def ask():
                if kind == 'get':
                    return cd.get_named_stream(q)
                m, off, n = cd.locate_named_stream(q)
                if m is None:
                    if (off, n) != (0, 0):
                        out.bad('not-found', '%s gave %r' % (ctx, (m, off, n)))
                    return None
                part = m[off:off + n]
                if s is not None and n != len(s['data']):
                    out.bad('length', '%s says %d bytes, stored were %d' % (ctx, n, len(s['data'])))
                return bytes(part)
            if len(op) > 3:
                # a request that is cut short; the number of lines is that of the request itself on another CompDoc
                exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'Cut': Cut}[op[3][0]]
                total = 4 + (len(s['chain']) * 8 if s and s.get('chain') else 0)
                ln = monitor.Lines(1 + int(op[3][1] * total), exc('simulated'))
                try:
                    with ln:
                        ask()
                    hist.append('uncut')
                except exc:
                    out.fault('request cut short by ' + op[3][0])
                    hist.append('cut')
                    asked.add(q.lower())
                except Exception as e:
                    lib.guard(e)
                    if s is None or s['path'] not in bad:
                        out.bad('refused', '%s raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                        break
                continue
            again = again or q.lower() in asked or bool(asked and bad)
            asked.add(q.lower())
            at = len(log.getvalue())
            try:
                with monitor.Budget(budget):
                    r = ask()
                out.calls += 1
            except Exception as e:
                lib.guard(e)
                hist.append(type(e).__name__)
                if s is None or s['path'] not in bad:
                    out.bad('refused', '%s raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                    break
                continue
            if out.viol:
                break
            if s is None:
                hist.append('none')
                if r is not None:
                    out.bad('not-there', '%s gave %d bytes, there is no such stream' % (ctx, len(r)))
                    break
                continue
            if r is None:
                out.bad('not-found', '%s found nothing' % ctx)
                break
            if bytes(r) == s['data']:
                hist.append('whole')
                continue
            hist.append('part')
            if s['path'] not in bad:
                out.bad('wrong-bytes', '%s gave %d bytes, stored were %d%s' % (ctx, len(r), len(s['data']), ', other bytes' * (len(r) == len(s['data']))))
            elif s['data'][:len(r)] != r:
                out.bad('wrong-bytes', '%s gave %d bytes that are not the first of the stored' % (ctx, len(r)))
            elif case['cut'] is None and 'WARNING' not in log.getvalue()[at:]:
                out.bad('silent', '%s gave %d of %d bytes without a word' % (ctx, len(r), len(s['data'])))
            elif case['cut'] is None and kind == 'locate':
                out.bad('located', '%s located %d of %d bytes' % (ctx, len(r), len(s['data'])))
            else:
                continue
            break
        out.world(w)
    for _ in sorted(bad) if case['cut'] is None else ():
        out.fault('stream with a mis-written chain')
    if case['cut'] is not None:
        out.fault('file ends early')
    out.probe('sound', sound)
    out.probe('asked again', again)
    out.probe('in storages', sum(1 for s in im.streams if s['storage'] is not None))
    if again:
        out.sig = h(plan, case['size'], case['dmg'], case['cut'], case['ops'])
    out.inter = h(hist, im.ss, im.n_x, bool(plan.get('free')))
    return out
