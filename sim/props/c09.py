"""C09: a damaged allocation structure is refused, not read through."""
import io
import struct

from .. import biff, gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C09'
QUICK, THOROUGH = 16000, 10 ** 7
RULE = ('One or two entries of the allocation tables, the directory or the header of a container holding a random workbook are mis-written so as to damage the chain '
        'of the directory, the mini-stream or the workbook; an independent walker classifies the resulting chains from the bytes; the file is opened with and without '
        'ignore_workbook_corruption. Non-trivial: the walker found a defect. Distinct: by layout and damage.')
MEASURE = 'distinct (structure, defect, layout features, option, outcome)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded mis-directed writes of allocation entries, judged by an independent chain walker'
NOTE = ('Seeded search over single and double mis-written entries. The oracle walks the same bytes independently; chains rerouted through sectors nothing claims are '
        'not detectable by any reader and are left out, as the property does.')


def gen(rng, tier, i):
    opts = lib.gen_opts(rng, fmt=0, od=rng.random() < 0.2)
    if rng.random() < 0.3:
        opts['ignore'] = 1
    wb = G.gen_wb(rng, v=rng.choice([80, 80, 70, 50, 30]), fmt=False, maxcells=rng.choice([3, 12, 30, 60]))
    stream_len = 2500
    plan = ole.gen_plan(rng, stream_len)
    if rng.random() < 0.6:
        plan['minstd'] = rng.choice([64, 0, 512])
    if rng.random() < 0.4 and plan.get('ssz', 9) > 9:
        plan['ssz'] = 9
        plan.pop('v4', None)
        plan['sssz'] = min(plan.get('sssz', 6), 9)
    if rng.random() < 0.7 and not plan.get('extra'):
        plan['extra'] = [['\x05SummaryInformation', rng.choice([200, 600, 3000]), None, True]]
    ops = []
    if rng.random() < 0.12:
        plan['ssz'], plan['sssz'] = 9, min(plan.get('sssz', 6), 9)
        plan.pop('v4', None)
        plan['force_x'] = 1
        if rng.random() < 0.6:
            plan['hdr'] = sorted(rng.sample(range(109), rng.choice([0, 1, 2])))
            plan['satpad'] = rng.choice([0, 1, 3, 8])
            plan['xper'] = rng.choice([1, 2, 127])
    for _ in range(rng.choice([1, 1, 1, 1, 2])):
        k = rng.choice(['sat', 'sat', 'sat', 'sat', 'first', 'size', 'ssat', 'ssatx'] + ['msat', 'xnext', 'xnext'] * (2 if plan.get('force_x') else 0) + ['msat'])
        if k in ('msat', 'xnext', 'ssatx'):
            ops.append([k, None, rng.randrange(1000), rng.choice(['self', 'sat', 'msatx', 'beyond', 'far', 'neg', 'first', 'dir', 'main', 'ssat']), rng.randrange(1000)])
            continue
        st = rng.choice(['main', 'main', 'dir', 'ms'])
        how = rng.choice(['self', 'beyond', 'beyond', 'far', 'neg', 'eoc', 'sat', 'msatx', 'dir', 'ms', 'ssat', 'main', 'free', 'other'])
        if k == 'size':
            ops.append([k, st, rng.choice([-1, 1, -64, 64, -512, 512, -1000, 1000, 5000, 1 << 30])])
        else:
            ops.append([k, st, rng.choice([0, -1, -1, -2, rng.randrange(1000)]), how, rng.randrange(1000)])
    return {'wb': wb, 'plan': plan, 'opts': opts, 'ops': ops}


def mutate(data, im, ops):
    b = bytearray(data)
    ss, nent, per = im.ss, im.ss // 4, im.ss // 128
    pl = im.place

    def put(off, v):
        if 0 <= off and off + 4 <= len(b):
            struct.pack_into('<i', b, off, v)
            return True

    def sat_off(sid):
        ids = pl['sat']
        return im.base + ids[sid // nent] * ss + sid % nent * 4 if sid // nent < len(ids) else -1

    def dir_off(did, field):
        ids = pl['dir']
        return im.base + ids[did // per] * ss + did % per * 128 + field
    for op in ops:
        k, st = op[0], op[1]
        big = im.main_group is not None
        if k in ('msat', 'xnext', 'ssatx'):
            _, _, j, how, x = op
            xs, sats = pl.get('msatx') or [], pl['sat']
            if k == 'xnext' and not xs or k == 'ssatx' and not pl.get('ssat'):
                k = 'msat'
            if k == 'xnext':
                off = [68] + [im.base + s * ss + ss - 4 for s in xs]
                off = off[j % len(off)]
                own = xs
            elif k == 'ssatx':
                own = pl['ssat']
                off = [60] + [sat_off(s) for s in own]
                off = off[j % len(off)]
            else:
                off = [76 + 4 * q for q in range(109)] + [im.base + s * ss + 4 * q for s in xs for q in range(nent - 1)]
                off = [o for o in off if struct.unpack_from('<i', b, o)[0] >= 0 or j % 5 == 0]
                if not off:
                    continue
                off = off[j % len(off)]
                own = sats
            tgt = {'self': own, 'sat': sats, 'msatx': xs, 'dir': pl['dir'] if k != 'msat' else None, 'first': own[:1], 'ssat': pl.get('ssat') if k != 'msat' else None,
                   'main': pl[im.main_group] if big and k != 'msat' else None}.get(how)
            if how == 'beyond':
                v = im.total + x % 3
            elif how == 'far':
                v = 0x7FFFFFF0
            elif how == 'neg':
                v = [-1, -3, -4, -5][x % 4]
            elif tgt:
                v = tgt[x % len(tgt)]
            else:
                continue
            put(off, v)
            continue
        chain = {'main': pl[im.main_group] if big else [], 'dir': pl['dir'], 'ms': pl.get('ms') or []}.get(st)
        if chain is None:
            raise biff.InvalidCase('structure')
        if k == 'size':
            if st == 'dir':
                continue
            off = dir_off(im.dir_index if st == 'main' else 0, 120)
            if off + 4 <= len(b):
                put(off, max(0, struct.unpack_from('<i', b, off)[0] + op[2]) & 0x7FFFFFFF)
            continue
        j, how, x = op[2], op[3], op[4]
        tgt = {'sat': pl['sat'], 'msatx': pl.get('msatx'), 'dir': pl['dir'], 'ms': pl.get('ms'), 'ssat': pl.get('ssat'),
               'main': pl[im.main_group] if big else None, 'free': pl.get('free'), 'self': chain,
               'other': [s for s, (g, _) in im.roles.items() if g.startswith('s') and g[1:].isdigit() and g != im.main_group]}.get(how)
        if k == 'ssat':
            if big or not pl.get('ssat'):
                continue
            mc = im.main['chain']
            sid = mc[j % len(mc)]
            n = sum(1 for _ in pl['ssat']) * nent
            v = {'beyond': n + x % 5, 'far': 0x7FFFFFF0, 'neg': [-1, -3, -4, -5][x % 4], 'eoc': -2}.get(how, mc[x % len(mc)])
            put(im.base + pl['ssat'][sid // nent] * ss + sid % nent * 4, v)
            continue
        if not chain:
            continue
        if how == 'beyond':
            v = im.total + x % 3
        elif how == 'far':
            v = 0x7FFFFFF0
        elif how == 'neg':
            v = [-1, -3, -4, -5][x % 4]
        elif how == 'eoc':
            v = -2
        elif tgt:
            v = tgt[x % len(tgt)]
            if how == 'free':
                put(sat_off(v), -2)
        else:
            continue
        if k == 'first':
            if st == 'dir':
                put(48, v)
            else:
                put(dir_off(im.dir_index if st == 'main' else 0, 116), v)
        else:
            put(sat_off(chain[j % len(chain)]), v)
    return bytes(b)


def walk(b, im):
    """-> dict: what is wrong with each chain, from the bytes alone (the MSAT is as written)"""
    ss, nent, per, sss = im.ss, im.ss // 4, im.ss // 128, im.sss
    nsec = -(-(len(b) - im.base) // ss)
    minstd = struct.unpack_from('<i', b, 56)[0]

    def sector(s):
        x = b[im.base + s * ss:im.base + (s + 1) * ss]
        return x + bytes(ss - len(x))
    # the list of the tables: the header's part and its extension
    r = {}
    msat = list(struct.unpack_from('<109i', b, 76))
    owner = {}
    s, nx = struct.unpack_from('<ii', b, 68)
    if not (nx == 0 and s in (-2, -1, 0)):
        while s not in (-2, -1, -4):
            if s >= nsec or s < 0:
                r['msat'] = ['extension leaves the file']
                return r
            if s in owner:
                r['msat'] = ['extension circular']
                return r
            owner[s] = 'msatx'
            q = struct.unpack('<%di' % nent, sector(s))
            msat += q[:-1]
            s = q[-1]
    sat = []
    tables = []
    for s in msat:
        if s in (-1, -2):
            continue
        if s < 0:
            r['msat'] = ['invalid entry']
            return r
        if s >= nsec:
            sat += [-5] * nent           # what this table said is lost, as in a truncated file
            tables.append(None)
            continue
        if s in owner:
            r['msat'] = ['a table listed twice, or one of the extension']
            return r
        owner[s] = 'sat'
        tables.append(s)
        sat += struct.unpack('<%di' % nent, sector(s))
    r['tables_same'] = tables == im.place['sat']

    def follow(first, who, claim=True):
        ids, seen, bad = [], set(), []
        s = first
        while s >= 0:
            if s in seen:
                bad.append('circular')
                break
            if s >= nsec:
                bad.append('leaves')
                break
            if s in owner:
                bad.append('crosses ' + owner[s])
            seen.add(s)
            ids.append(s)
            s = sat[s] if s < len(sat) else -9
        else:
            if s != -2:
                bad.append('badend')
        if claim:
            for x in ids:
                owner.setdefault(x, who)
        return ids, bad
    dids, r['dir'] = follow(struct.unpack_from('<i', b, 48)[0], 'dir')
    r['dir_same'] = dids == im.place['dir']
    if r['dir'] or not r['dir_same']:
        return r
    d = b''.join(sector(s) for s in dids)
    first, size = struct.unpack_from('<ii', d, 116)
    r['ms'] = []
    mids = []
    if first >= 0 and size > 0:
        mids, r['ms'] = follow(first, 'ms')
        if not r['ms'] and len(mids) != -(-size // ss):
            r['ms'] = ['length']
    ssids = []
    r['cut_table'] = False
    if size > 0:
        ssids, bad = follow(struct.unpack_from('<i', b, 60)[0], 'ssat')
        r['cut_table'] = any(im.base + (q + 1) * ss > len(b) for q in ssids)
        r['ssat'] = bad or ([] if len(ssids) == struct.unpack_from('<i', b, 64)[0] else ['length'])
    r['ms_same'] = (first, size) == (im.place['ms'][0], None) if False else mids == (im.place.get('ms') or [])
    e = im.dir_index * 128
    mfirst, msize = struct.unpack_from('<ii', d, e + 116)
    r['msize'] = msize
    if msize >= minstd:
        r['kind'] = 'big'
        if mfirst < 0:
            r['main'], ids = ['start'], []
        else:
            ids, r['main'] = follow(mfirst, 'main', claim=False)
            if any(im.base + (q + 1) * ss > len(b) for q in ids[:-1]):
                r['main'].append('cut short')
            if not r['main'] and len(ids) != -(-msize // ss):
                r['main'] = ['length']
        r['ids'] = ids
        r['spelled_full'] = b''.join(b[im.base + s * ss:im.base + (s + 1) * ss] for s in ids)
        r['spelled'] = b''.join(b[im.base + s * ss:im.base + (s + 1) * ss] for s in ids)[:msize]
    else:
        r['kind'] = 'mini'
        ssat = []
        for s in ssids:
            ssat += struct.unpack('<%di' % nent, sector(s))
        ids, seen, bad = [], set(), []
        s = mfirst
        while s >= 0:
            if s in seen:
                bad.append('circular')
                break
            if s >= len(ssat):
                bad.append('leaves')
                break
            seen.add(s)
            ids.append(s)
            s = ssat[s]
        else:
            if s != -2:
                bad.append('badend')
        if not bad and (len(ids) != -(-msize // sss) or any(s * sss >= size for s in ids)):
            bad = ['length']
        r['main'] = bad
        r['ids'] = ids
    return r


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    im = ole.build(stream, case['plan'])
    data = mutate(im.data, im, case['ops'])
    r = walk(data, im)
    opts = case['opts']
    must = exact = None
    spelled = None
    if r.get('msat'):
        must = 'the list of allocation tables: ' + ', '.join(r['msat'])
    elif not r['tables_same']:
        # other tables, or some lost: only what the chains, as the bytes spell them, show to be broken is claimed
        must = 'the directory chain: ' + ', '.join(r['dir']) if r['dir'] else None
    elif r['dir']:
        must = 'the directory chain: ' + ', '.join(r['dir'])
    elif not r['dir_same']:
        exact = 'the directory chain differs'
    elif r['ms'] and r['ms'] != ['length']:
        must = 'the mini-stream chain: ' + ', '.join(r['ms'])
    elif r.get('ssat'):
        must = 'the chain of the mini-sector table: ' + ', '.join(r['ssat'])
    elif r['ms'] == ['length'] and r['kind'] == 'mini':
        exact = 'the mini-stream has the wrong length'
        if 'circular' in r['main']:
            must, exact = 'the mini-sector chain is circular', None
    elif r['main']:
        if r['kind'] == 'mini':
            if 'circular' in r['main'] or 'badend' in r['main']:
                must = 'the mini-sector chain of the workbook: ' + ', '.join(r['main'])
            elif r['ms_same']:
                exact = 'the mini-sector chain of the workbook: ' + ', '.join(r['main'])
        else:
            shared = all(x.startswith('crosses') for x in r['main'])
            if opts.get('ignore') and shared:
                if r['cut_table']:
                    pass                # (another structure is incomplete: the option says nothing about that)
                elif len(r['ids']) == -(-r['msize'] // im.ss):
                    spelled = r['spelled']
                else:
                    must = 'the workbook chain has the wrong length (and shares sectors)'
            else:
                must = 'the workbook chain: ' + ', '.join(r['main'])
    outcome = None
    with world.World() as w:
        got = None
        log = io.StringIO()
        try:
            with monitor.Budget(3000000 + 500 * len(data)):
                bk = lib.open_book(w, data, opts, log=log)
                got = observe.snapshot(bk, False)
            outcome = 'opened'
        except Exception as e:
            lib.guard(e)
            outcome = 'refused'
            err = lib.show(e)
        except monitor.BudgetExceeded as e:
            out.bad('endless', str(e))
            return out
        out.calls += 1
        if must and outcome == 'opened':
            out.bad('accepted', '%s, yet the workbook was opened' % must)
        if exact and outcome == 'opened':
            said = r.get('ms') == ['length'] and 'WARNING' in log.getvalue()
            bad = observe.against(exp, got)
            out.probe('a mini-stream of the wrong length: misread, with a warning', bool(bad) and said)
            if not said:
                out.diffs('read-through', bad, exact)
        if spelled is not None:
            wants = []
            for sp in (spelled, r['spelled_full']):
                # (a stream may be read up to the end of its last sector)
                try:
                    with monitor.Budget(3000000 + 500 * len(data)):
                        wants.append(observe.snapshot(lib.open_book(w, sp, dict(opts, ignore=0)), False))
                except Exception as e:
                    lib.guard(e)
                    wants.append(None)
                except monitor.BudgetExceeded:
                    return out
            if outcome == 'refused' and wants[0] is not None:
                out.bad('not-read', 'ignore_workbook_corruption: the chain spells a readable workbook, but opening raised ' + err)
            elif outcome == 'opened' and wants == [None, None]:
                out.bad('read-through', 'ignore_workbook_corruption: read something the chain does not spell')
            elif outcome == 'opened' and got not in wants:
                out.diffs('read-through', observe.diff(wants[0] or wants[1], got), 'ignore_workbook_corruption')
            out.probe('ignore_workbook_corruption: shared sectors')
        if must is None and exact is None and spelled is None and outcome == 'refused' and not any(r.get(k) for k in ('msat', 'dir', 'ms', 'ssat', 'main')) and \
                data == im.data:
            out.bad('refused', err)
    if must or exact or spelled is not None:
        feats = [r.get('kind'), im.n_x > 0, im.contiguous]
        out.sig = h(case)
        out.inter = h(must, exact, spelled is not None, feats, outcome, bool(opts.get('ignore')))
        for op in case['ops']:
            out.fault('mis-written %s of %s' % (op[0], op[1]) if op[1] else 'mis-written ' + {'msat': 'list of the tables', 'xnext': 'list extension link',
                                                                                            'ssatx': 'mini-sector table chain'}[op[0]])
        out.probe('must be refused', bool(must))
        for k in ('msat', 'dir', 'ms', 'ssat', 'main'):
            for x in r.get(k) or ():
                out.probe('%s%s: %s' % (k, ' (mini)' if k == 'main' and r.get('kind') == 'mini' else '', x))
    return out
