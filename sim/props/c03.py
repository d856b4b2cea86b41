"""C03: cells read back exactly, in whatever order their records arrive."""
from .. import biff, gen as G, lib, ole, world
from ..lib import Out, h

ID = 'C03'
QUICK, THOROUGH = 12000, 10 ** 7
RULE = ('A random workbook of any BIFF version 2 to 8 whose cell records arrive in a seeded order (row order, column order, reversed, shuffled, a few '
        'swaps, overwrites, far cells, other records in between), opened with seeded options and compared with a reference model of the grid. '
        'Non-trivial: at least two cell records. Distinct: by the arrival sequence (record kinds and positions) and the options.')
MEASURE = 'distinct arrival orders of (row, column) over all worksheets'
TECHNIQUE = 'deterministic simulation: seeded arrival orders of cell records, compared with a reference model'
NOTE = ('Seeded search over arrival orders, overwrites, record kinds, versions and options; bit-exact comparison with a reference grid. Sampled; trusts the '
        'simulated writer. Overwriting a rich-text cell is not generated (the library documents no meaning for it).')


def gen(rng, tier, i):
    opts = lib.gen_opts(rng)
    v = rng.choice([80, 80, 80, 70, 50, 45, 40, 30, 21, 20])
    big = rng.random() < 0.04
    arrival = rng.choice([None, None, 'shuffle', 'swap', 'rev', 'cols'])
    wb = G.gen_wb(rng, v=v, fmt=opts['fmt'], maxcells=300 if big else rng.choice([5, 30, 80]), arrival=arrival, min_cells=2, rich_xf=False,
                  notes=False, hlinks=False, far=0.15, nsheets=rng.choice([1, 1, 2, 3]))
    if v >= 50 and rng.random() < 0.08:
        # one record covering (nearly) a whole row
        items = next(s for s in wb['sheets'] if s.get('type', 0) == 0)['items']
        c, nx = rng.choice([0, 0, 1, 56]), len(wb['xfs'])
        n = rng.choice([256 - c, 255 - c, 100])
        r = rng.choice([30, 31])
        if rng.random() < 0.7:
            it = ['mulrk', r, c, [[rng.randrange(nx), G.rk(rng)] for _ in range(n)]]
        else:
            it = ['mulblank', r, c, [rng.randrange(nx) for _ in range(n)]]
        if not any(x[0] == 'far' for x in items) and not any(x[0] in biff.CELL_ITEMS and x[1] == r for x in items):
            items.insert(rng.randrange(len(items) + 1), it)
    if v >= 80 and wb.get('sst') and rng.random() < 0.02:
        wb['sst_fill'] = rng.choice([250, 300, 32760, 65535, 66000])
    if v < 80 and rng.random() < 0.25:
        # the codepage record is missing or wrong, and the caller says what the encoding is
        opts['enc'] = biff.enc_of(wb)
        wb['cp_stored'] = rng.choice([None, 1252, 10000, 437])
    return {'wb': wb, 'opts': opts, 'plan': ole.gen_plan(rng, 3000) if v >= 50 and rng.random() < 0.1 else None}


def run(case):
    out = Out()
    wb = case['wb']
    exp = biff.expect(wb, bool(case['opts'].get('fmt')), bool(case['opts'].get('ragged')))
    if 'cp_stored' in wb:
        biff.req(case['opts'].get('enc') is not None and wb['v'] < 80)
        stream, info = build_override(wb)
        exp['book']['codepage'] = wb['cp_stored']
        biff.req(not 30 <= wb['v'] < 50 or wb['formats'] or wb['cp_stored'] is not None)
        exp['book']['encoding'] = case['opts']['enc']
        if wb['v'] < 30 and wb['cp_stored'] is None:
            del exp['book']['encoding']           # nothing may need decoding
        if case['opts']['enc'] != biff.enc_of(wb):
            raise biff.InvalidCase('encoding')
    else:
        stream, info = biff.build(wb)
    data, _ = lib.image_of(case, stream)
    with world.World() as w:
        try:
            bk = lib.open_book(w, data, case['opts'])
            out.calls += 1
            lib.check_snapshot(out, exp, bk, bool(case['opts'].get('fmt')))
            if case['opts'].get('od'):
                bk.release_resources()
        except Exception as e:
            lib.guard(e)
            out.bad('refused', 'opening raised %s at %s' % (lib.show(e), lib.where(e)))
    order, kinds = [], []
    for s in wb['sheets']:
        for it in s.get('items') or ():
            if it[0] in biff.CELL_ITEMS:
                order.append((it[1], it[2]))
                kinds.append(it[0])
                out.probe('record ' + it[0])
    if len(order) > 1:
        out.sig = h(wb['v'], order, kinds, case['opts'])
        out.inter = h(order)
    out.probe('out of row order', any(b < a for a, b in zip(order, order[1:])))
    out.probe('overwrites', len(set(order)) < len(order))
    out.probe('wide_record', any(it[0] in ('mulrk', 'mulblank') and len(it[3]) > 90 for s in wb['sheets'] for it in s.get('items') or ()))
    out.probe('big_table', wb.get('sst_fill', 0) > 32000)
    out.probe('encoding_override', 'enc' in case['opts'])
    return out


def build_override(wb):
    """strings packed in the true encoding, but the codepage record says something else"""
    real = biff.CODEPAGE_ENC
    enc = biff.enc_of(wb)
    w2 = dict(wb, cp=wb['cp_stored'])
    saved = biff.enc_of
    biff.enc_of = lambda x: enc
    try:
        return biff.build(w2)
    finally:
        biff.enc_of = saved
        assert biff.CODEPAGE_ENC is real
