"""C01: storage layout of the container never changes what is read."""
from .. import biff, gen as G, lib, observe, ole, world
from ..lib import Out, h

ID = 'C01'
QUICK, THOROUGH = 9000, 10 ** 7
RULE = ('One workbook stream (random workbook, BIFF 2 to 8) is stored by a simulated allocator: random sector sizes, order of all sectors and '
        'mini-sectors, allocation tables in header and extension sectors, other streams, directory tree, end of file; then opened and compared with '
        'the reference model and with the bare stream. Non-trivial: the stream is fragmented, in mini-sectors, or reached through a table in '
        'an unusual place. Distinct: by the full sector map of the file and the options.')
MEASURE = 'distinct sector chains of the workbook stream (the allocation history it went through)'
TECHNIQUE = 'deterministic simulation: seeded storage-allocation histories, compared with a reference model'
NOTE = ('Seeded search over container layouts; each file is compared with a reference model of what the writer stored and with the bare stream. '
        'Sampled, not exhaustive; trusts the simulated writer.')
ASSUMPTIONS = ['header of 512 bytes for every sector size, as the OpenOffice.org documentation describes and xlrd implements, except in version 4 documents, '
               'where it fills a sector of 4096 bytes, as Microsoft describes']


def gen(rng, tier, i):
    opts = lib.gen_opts(rng)
    wb = G.gen_wb(rng, fmt=opts['fmt'], maxcells=rng.choice([3, 25, 60]))
    if wb['v'] >= 50 and rng.random() < 0.01:
        # the sheets begin far behind the start of the stream
        s = rng.choice(wb['sheets'])
        if s.get('type', 0) == 0:
            s['items'].insert(0, ['bulk', (128, 512)[wb['v'] < 80] + rng.randrange(100)])
    stream, _ = biff.build(wb)
    plan = ole.gen_plan(rng, len(stream), simple=0.03)
    if rng.random() < 0.03:
        plan['ssz'] = 7
        plan.pop('v4', None)
        plan['sssz'] = min(plan.get('sssz', 6), 7)
        plan.pop('hdr', None)
        plan['extra'] = [x for x in plan.get('extra') or () if x[0] != 'big'] + [['big', rng.choice([460000, 900000, 460000, 900000, 4300000]), None, rng.random() < .5]]
        if plan.get('minstd', 4096) > 400000:
            plan['minstd'] = 4096
    elif rng.random() < 0.02:
        # sizes out of the question are read as the usual ones
        if rng.random() < 0.5:
            plan.pop('v4', None)
            plan.update(ssz=9, sssz=min(9, plan.get('sssz', 6)), sszf=rng.choice([21, 32, 512, 65535]))
        else:
            plan.update(sssz=6, ssz=max(6, plan.get('ssz', 9)))
            plan['ssszf'] = rng.choice([plan['ssz'] + 1, 21, 64, 65535])
    return {'wb': wb, 'plan': plan, 'opts': opts, 'way': rng.choice(['bytes', 'mmap', 'read', 'bytes'])}


def run(case):
    out = Out()
    stream, st, exp = lib.model_of(case)
    im = ole.build(stream, case['plan'])
    fmt = bool(case['opts'].get('fmt'))
    with world.World() as w:
        try:
            bk = lib.open_book(w, im.data, case['opts'], case['way'])
            out.calls += 1
            got = observe.snapshot(bk, fmt)
        except Exception as e:
            lib.guard(e)
            out.bad('refused', 'opening raised %s at %s' % (lib.show(e), lib.where(e)))
            return out
        out.diffs('wrong-result', observe.against(exp, got))
        if not out.viol:
            bare = lib.open_book(w, stream, case['opts'], 'bytes')
            out.calls += 1
            d = observe.diff(observe.snapshot(bare, fmt), got)
            out.diffs('layout-dependent', d)
    mini = im.main_group is None
    if mini or not im.contiguous or im.n_x or case['plan'].get('hdr') is not None:
        out.sig = h(case['plan'], im.main.get('chain'), case['opts'], case['way'])
    out.inter = h(mini, im.ss, im.main.get('chain'))
    out.probe('in mini-stream', mini)
    out.probe('fragmented', not im.contiguous and not mini)
    out.probe('extension sectors', im.n_x > 0)
    out.probe('extension chain longer than one', im.n_x > 1)
    out.probe('cut at end of data', im.cut)
    out.probe('more than 249 directory entries', im.nentries > 249)
    out.probe('workbook entry number above 249', im.dir_index > 249)
    out.probe('free sectors', bool(case['plan'].get('free')))
    out.probe('degenerate directory tree', case['plan'].get('treemode') is not None)
    return out
