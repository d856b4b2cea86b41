"""Simulated OLE2 (compound file) storage: lays a workbook stream out in a container as some
sequence of allocations could have left it.

A layout plan is a small JSON object; build() returns the file bytes and a map of every sector,
so that fault injection can aim at a given structure.

plan keys
  ssz, sssz      log2 of sector and mini-sector size
  minstd         threshold below which a stream lives in the mini-stream
  name           stream name ('Workbook', 'BOOK', ...)
  frag           [mode, seed]: 'seq' | 'rev' | 'shuffle' | 'runs' | 'tables_last'
  minifrag       the same for mini-sectors
  free, minifree number of free (unused) sectors mixed in
  hdr            None: all allocation-table sectors listed in the header; otherwise a list of header
                 positions to use, the rest goes to extension sectors
  xper           entries used per extension sector (None: all); the rest are unused entries
  extra          [[name, size, storage or None, first], ...] other streams
  both           also store a decoy under the other name ('Book')
  tree           seed of the directory tree shape (None: balanced)
  dirgap         unused directory entries to insert at given positions
  cut            cut the file at the end of the data of the physically last sector (if possible)
  satpad         extra allocation-table sectors at the end (all free entries)
  msatx_end      how the extension chain ends / absent chain marker
  rootfree       first sector marker of an empty mini-stream (-2 or -1)
  version        (revision, version)
  eocpad         seed: unused entries of the master table are marked free or end-of-chain
  v4             version 4: sectors of 4096 bytes, the first of which is the header's
  junk           seed of the values of fields that mean nothing to a reader
"""
import random
import struct

from .biff import InvalidCase, req

P = struct.pack
FREE, EOC, SATS, MSATS = -1, -2, -3, -4
SIG = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"


def perm(n, frag):
    mode, seed = frag or ['seq', 0]
    ids = list(range(n))
    rng = random.Random(seed)
    if mode == 'rev':
        ids.reverse()
    elif mode == 'shuffle':
        rng.shuffle(ids)
    elif mode == 'runs':
        runs = []
        while ids:
            k = rng.choice([1, 1, 2, 3, 5, 9])
            runs.append(ids[:k])
            ids = ids[k:]
        rng.shuffle(runs)
        ids = [x for r in runs for x in r]
    elif mode == 'swap':
        for _ in range(rng.choice([1, 1, 2, 3])):
            if n > 1:
                i, j = rng.randrange(n), rng.randrange(n)
                ids[i], ids[j] = ids[j], ids[i]
    return ids


class Image(object):
    pass


def build(stream, plan):
    plan = plan or {}
    ssz, sssz = plan.get('ssz', 9), plan.get('sssz', 6)
    req(7 <= ssz <= 16 and 3 <= sssz <= ssz)
    req(not plan.get('v4') or ssz == 12)
    base = 4096 if plan.get('v4') else 512
    junk = random.Random(plan['junk']) if plan.get('junk') else None

    def noise(n):
        return bytes(junk.randrange(256) for _ in range(n)) if junk else bytes(n)
    ss, sss = 1 << ssz, 1 << sssz
    minstd = plan.get('minstd', 4096)
    name = plan.get('name', 'Workbook')
    # ---- the streams
    streams = [{'name': name, 'data': stream, 'storage': plan.get('main_in'), 'main': True}]
    if plan.get('both'):
        streams.append({'name': 'Book', 'data': b'\x09\x08' * 40, 'storage': None})
    for x in plan.get('extra') or ():
        nm, size, sto, first = x
        e = {'name': nm, 'data': bytes((i * 7 + size) & 255 for i in range(size)), 'storage': sto}
        if nm.lower() in ('workbook', 'book'):
            req(sto is not None)
        if first:
            streams.insert(0, e)
        else:
            streams.append(e)
    for s in streams:
        s['mini'] = len(s['data']) < minstd
    # ---- mini-stream
    minis = [s for s in streams if s['mini'] and s['data']]
    nm = sum(-(-len(s['data']) // sss) for s in minis) + (plan.get('minifree', 0) if minis else 0)
    order = perm(nm, plan.get('minifrag'))
    ssat = [FREE] * nm
    mstream = bytearray(b'\xEE' * (nm * sss))
    k = 0
    for s in minis:
        n = -(-len(s['data']) // sss)
        ids = order[k:k + n]
        k += n
        s['chain'] = ids
        for i, sid in enumerate(ids):
            ssat[sid] = ids[i + 1] if i + 1 < n else EOC
            piece = s['data'][i * sss:(i + 1) * sss]
            mstream[sid * sss:sid * sss + len(piece)] = piece
    if nm and plan.get('mini_trim', True):
        # the mini-stream ends with the data of its last mini-sector in use, rounded up to a mini-sector
        last = max(i for i in range(nm) if ssat[i] != FREE) + 1
        if plan.get('mini_trim') == 'trim':
            mstream = mstream[:last * sss]
    # ---- directory
    entries = [{'name': 'Root Entry', 'type': 5, 'kids': []}]
    storages = {}
    for s in streams:
        if s['storage'] is not None and s['storage'] not in storages:
            storages[s['storage']] = {'name': s['storage'], 'type': 1, 'kids': []}
            entries[0]['kids'].append(storages[s['storage']])
        e = {'name': s['name'], 'type': 2, 'stream': s}
        s['entry'] = e
        (storages[s['storage']] if s['storage'] is not None else entries[0])['kids'].append(e)
    flat = []

    def collect(e):
        for c in e.get('kids', ()):
            flat.append(c)
            collect(c)
    collect(entries[0])
    rng = random.Random(plan.get('tree') or 0)
    if plan.get('tree') is not None:
        rng.shuffle(flat)
    entries += flat
    for pos in sorted(plan.get('dirgap') or ()):
        entries.insert(min(max(1, pos), len(entries)), None)
    per = ss // 128
    while len(entries) % per:
        entries.append(None)
    did = {id(e): i for i, e in enumerate(entries) if e}

    def shape(kids):
        """a binary tree over kids -> index of its root"""
        if not kids:
            return -1
        if plan.get('tree') is None:
            m = len(kids) // 2
        elif plan.get('treemode') == 'list':
            m = 0
        elif plan.get('treemode') == 'rlist':
            m = len(kids) - 1
        else:
            m = rng.randrange(len(kids))
        e = kids[m]
        e['left'], e['right'] = shape(kids[:m]), shape(kids[m + 1:])
        return did[id(e)]
    for e in entries:
        if e and 'kids' in e:
            ks = sorted(e['kids'], key=lambda c: (len(c['name']), c['name'].upper()))
            e['root'] = shape(ks)
    # ---- sector budget
    big = [s for s in streams if not s['mini'] and s['data']]
    for s in big:
        s['n'] = -(-len(s['data']) // ss)
    n_ms = -(-len(mstream) // ss)
    nent = ss // 4
    n_ssat = -(-len(ssat) // nent) if ssat else 0
    n_dir = len(entries) // per
    free = plan.get('free', 0)
    fixed = sum(s['n'] for s in big) + n_ms + n_ssat + n_dir + free
    hdr = plan.get('hdr')
    if hdr is None:
        hdr = list(range(109))
    req(all(0 <= h < 109 for h in hdr) and len(set(hdr)) == len(hdr))
    hdr = sorted(hdr)
    xper = min(plan.get('xper') or (nent - 1), nent - 1)
    n_sat = n_x = 0
    while True:
        total = fixed + n_sat + n_x
        want = -(-total // nent) + plan.get('satpad', 0)
        wx = -(-max(0, want - len(hdr)) // xper) if want > len(hdr) else 0
        if plan.get('force_x') and not wx:
            wx = 1
        if want <= n_sat and wx <= n_x:
            break
        n_sat, n_x = max(n_sat, want), max(n_x, wx)
    total = fixed + n_sat + n_x
    req(total < 40000 and total << ssz < 1 << 27)
    # ---- place every sector
    groups = [('sat', n_sat), ('msatx', n_x), ('dir', n_dir)]
    groups += [('s%d' % i, s['n']) for i, s in enumerate(big)]
    groups += [('ms', n_ms), ('ssat', n_ssat), ('free', free)]
    if plan.get('tables_last'):
        groups = groups[3:] + groups[:3]
    seq = [(g, i) for g, n in groups for i in range(n)]
    order = perm(total, plan.get('frag'))
    place = {}
    for (g, i), sid in zip(seq, order):
        place.setdefault(g, [None] * dict(groups)[g])[i] = sid
    if plan.get('cut') is not None and total:
        # the sector holding the end of some stream goes to the end of the file
        cands = ['s%d' % i for i in range(len(big))] + (['ms'] if n_ms else [])
        if cands:
            g = cands[plan['cut'] % len(cands)]
            a, b = place[g][-1], total - 1
            for gg in place:
                place[gg] = [b if x == a else a if x == b else x for x in place[gg]]
    sat = [FREE] * (n_sat * nent)
    body = bytearray(b'\xDD' * (total * ss))
    roles = {}

    def put(sid, data):
        body[sid * ss:sid * ss + len(data)] = data

    def chain(ids):
        for i, sid in enumerate(ids):
            sat[sid] = ids[i + 1] if i + 1 < len(ids) else EOC
    for g, ids in place.items():
        for i, sid in enumerate(ids):
            roles[sid] = (g, i)
    ends = {}
    for i, s in enumerate(big):
        ids = place['s%d' % i]
        s['chain'] = ids
        chain(ids)
        for k, sid in enumerate(ids):
            put(sid, s['data'][k * ss:(k + 1) * ss])
        ends[ids[-1]] = len(s['data']) - (len(ids) - 1) * ss
    if n_ms:
        chain(place['ms'])
        for k, sid in enumerate(place['ms']):
            put(sid, mstream[k * ss:(k + 1) * ss])
        ends[place['ms'][-1]] = len(mstream) - (n_ms - 1) * ss
    if n_ssat:
        chain(place['ssat'])
        full = ssat + [FREE] * (n_ssat * nent - len(ssat))
        for k, sid in enumerate(place['ssat']):
            put(sid, P('<%di' % nent, *full[k * nent:(k + 1) * nent]))
    chain(place['dir'])
    dbytes = b''
    for e in entries:
        if e is None:
            dbytes += bytes(68) + P('<iii', -1, -1, -1) + bytes(48)
            continue
        nb = (e['name'] + '\0').encode('utf-16-le')
        req(len(nb) <= 64)
        if e['type'] == 5:
            first = place['ms'][0] if n_ms else plan.get('rootfree', EOC)
            size = len(mstream)
        elif e['type'] == 1:
            first, size = 0, 0
        else:
            s = e['stream']
            first = s['chain'][0] if s['data'] else EOC
            size = len(s['data'])
        dbytes += (nb + bytes(64 - len(nb)) + P('<HBBiii', len(nb), e['type'], plan.get('colour', 1), e.get('left', -1),
                                                e.get('right', -1), e.get('root', -1)) + noise(36) + P('<ii', first, size) + (bytes(4) if plan.get('v4') else noise(4)))
    for k, sid in enumerate(place['dir']):
        put(sid, dbytes[k * ss:(k + 1) * ss])
    for sid in place['sat']:
        sat[sid] = SATS
    for sid in place.get('msatx', ()):
        sat[sid] = MSATS
    for k, sid in enumerate(place['sat']):
        put(sid, P('<%di' % nent, *sat[k * nent:(k + 1) * nent]))
    # ---- MSAT
    pads = random.Random(plan.get('eocpad', 0))
    unused = (lambda: pads.choice([FREE, EOC])) if plan.get('eocpad') else (lambda: FREE)
    hdrs = [unused() for _ in range(109)]
    rest = list(place['sat'])
    for h in hdr:
        if rest:
            hdrs[h] = rest.pop(0)
    holes = random.Random(plan.get('xhole', 0))
    xs = place.get('msatx') or []
    for k, sid in enumerate(xs):
        take, rest = rest[:xper], rest[xper:]
        ent = [unused() for _ in range(nent - 1)]
        slots = list(range(nent - 1))
        if plan.get('xhole'):
            slots = sorted(holes.sample(slots, len(take)))
        for sl, x in zip(slots, take):
            ent[sl] = x
        nxt = xs[k + 1] if k + 1 < len(xs) else plan.get('xend', EOC)
        put(sid, P('<%di' % nent, *(ent + [nxt])))
    assert not rest
    rev, ver = plan.get('version') or (0x3E, 4 if plan.get('v4') else 3)
    req(bool(plan.get('v4')) == (ver == 4))
    # sizes out of the question, read as the usual ones
    req('sszf' not in plan or ssz == 9 and plan['sszf'] > 20)
    req('ssszf' not in plan or sssz == 6 and plan['ssszf'] > ssz)
    head = (SIG + noise(16) + P('<HH', rev, ver) + b'\xFE\xFF' + P('<HH', plan.get('sszf', ssz), plan.get('ssszf', sssz)) + bytes(6) +
            P('<iiiiiiiii', len(place['dir']) if plan.get('v4') else 0, n_sat, place['dir'][0], junk.randrange(1 << 30) if junk else 0, minstd, place['ssat'][0] if n_ssat else plan.get('noss', EOC), n_ssat,
              xs[0] if xs else plan.get('nox', EOC), len(xs)) + P('<109i', *hdrs))
    assert len(head) == 512
    data = head + bytes(base - 512) + bytes(body)
    im = Image()
    im.cut = False
    if plan.get('cut') is not None and total - 1 in ends and ends[total - 1] < ss:
        data = data[:base + (total - 1) * ss + ends[total - 1]]
        im.cut = True
    im.base = base
    im.data, im.ss, im.total, im.roles, im.place = data, ss, total, roles, place
    im.sss, im.streams = sss, streams
    im.main = streams[[bool(s.get('main')) for s in streams].index(True)]
    im.main_group = ('s%d' % big.index(im.main)) if im.main in big else None
    im.dir_index = did[id(im.main['entry'])]
    im.n_sat, im.n_x, im.nent, im.nentries = n_sat, n_x, nent, len(entries)
    im.contiguous = im.main_group is not None and all(b == a + 1 for a, b in zip(im.main['chain'], im.main['chain'][1:]))
    return im


def gen_plan(rng, stream_len, simple=0.25):
    """A random layout."""
    if rng.random() < simple:
        return {}
    p = {}
    p['ssz'] = rng.choice([9, 9, 9, 9, 7, 8, 10, 11, 12, 13])
    p['sssz'] = min(p['ssz'], rng.choice([6, 6, 6, 4, 5, 7, 8, 9]))
    if p['ssz'] == 12 and rng.random() < 0.7 or rng.random() < 0.03:
        p.update(ssz=12, v4=1)
    if rng.random() < 0.3:
        p['junk'] = rng.randrange(1, 1 << 30)
    if rng.random() < 0.15:
        p['eocpad'] = rng.randrange(1, 1 << 30)
    m = rng.random()
    if m < 0.65:
        p['minstd'] = rng.choice([0, 0, 64, 64, 512, 1024, 4096, stream_len, stream_len, stream_len + 1, 1 << 20])
    if rng.random() < 0.5:
        p['name'] = rng.choice(['Workbook', 'WORKBOOK', 'workbook', 'Book', 'BOOK', 'book', 'WorkBook'])
    p['frag'] = [rng.choice(['seq', 'rev', 'shuffle', 'shuffle', 'runs', 'runs', 'swap', 'swap']), rng.randrange(1 << 30)]
    p['minifrag'] = [rng.choice(['seq', 'rev', 'shuffle', 'runs', 'swap']), rng.randrange(1 << 30)]
    if rng.random() < 0.5:
        p['free'] = rng.choice([1, 2, 5, 30])
    if rng.random() < 0.4:
        p['minifree'] = rng.choice([1, 3, 10])
    r = rng.random()
    if r < 0.25:
        p['hdr'] = sorted(rng.sample(range(109), rng.choice([0, 0, 1, 1, 2, 3])))
        if rng.random() < 0.6:
            p['xper'] = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.5:
            p['xhole'] = rng.randrange(1, 1 << 30)
        if rng.random() < 0.5:
            p['satpad'] = rng.choice([1, 2, 4])
        p['xend'] = rng.choice([-2, -2, -1])
    elif r < 0.4:
        p['hdr'] = sorted(rng.sample(range(109), rng.choice([10, 50, 108])))
    ex = []
    used = set()
    for _ in range(rng.choice([0, 0, 1, 2, 3, 6])):
        nm = rng.choice(['\x05SummaryInformation', '\x05DocumentSummaryInformation', '\x01CompObj', 'Ctls', 'MBD0001', 'Revision Log',
                         'User Names', '_VBA_PROJECT', 'dir', 'Workbook', 'x', 'Book2', 'Workbook1', 'workboo'])
        sto = rng.choice([None, None, '_VBA_PROJECT_CUR', 'MBD01234567'])
        if nm == 'Workbook' and sto is None:
            sto = 'MBD01234567'
        if (nm, sto) in used:
            continue
        used.add((nm, sto))
        ex.append([nm, rng.choice([0, 1, 64, 100, 4095, 4096, 5000, 9000]), sto, rng.random() < 0.5])
    if rng.random() < 0.04:
        ex += [['s%03d' % i, rng.choice([0, 10]), None, True] for i in range(rng.choice([40, 120, 250, 300]))]
    if ex:
        p['extra'] = ex
    if rng.random() < 0.1 and p.get('name', 'Workbook').lower() == 'workbook':
        p['both'] = 1
    if rng.random() < 0.6:
        p['tree'] = rng.randrange(1 << 30)
        if rng.random() < 0.4:
            p['treemode'] = rng.choice(['list', 'rlist'])
        if rng.random() < 0.4:
            p['dirgap'] = [rng.randrange(1, 8) for _ in range(rng.choice([1, 2, 5]))]
    if rng.random() < 0.4:
        p['cut'] = rng.randrange(4)
    if rng.random() < 0.2:
        p['tables_last'] = 1
    if rng.random() < 0.3:
        p['nox'] = rng.choice([-2, -1, 0])
    if rng.random() < 0.2:
        p['rootfree'] = rng.choice([-2, -1])
    if rng.random() < 0.3:
        p['mini_trim'] = 'trim'
    if rng.random() < 0.2:
        p['colour'] = 0
    return p
