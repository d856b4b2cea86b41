"""C16: formatting and annotations are reported as stored."""
from .. import biff, gen as G, lib, observe, ole, world
from ..lib import Out, h

ID = 'C16'
QUICK, THOROUGH = 14000, 10 ** 7
RULE = ('A random BIFF 2 to 8 workbook rich in formatting and annotation records, which a simulated writer emits in a seeded admissible order, is read with '
        'formatting_info=True, eagerly or on demand in a seeded order with unloads and reloads, and every field is compared with the reference model; empty cells get '
        'the format of their row, their column or the default. Non-trivial: at least one sheet-level formatting or annotation record. Distinct: by the whole case.')
MEASURE = 'distinct sequences of record kinds in a sheet (the order in which they arrived)'
TECHNIQUE = 'deterministic simulation: seeded writer histories (which records arrive, in which order) compared with a reference model'
NOTE = ('Seeded search over stored values and arrival orders; trusts the simulated writer. BIFF 4W formatting is checked for single-sheet meaning only, as the format keeps '
        'it per sheet while the library documents it per book.')
STUBBED = 'file writer (simulated)'

DEFAULT8 = ('000000 ffffff ff0000 00ff00 0000ff ffff00 ff00ff 00ffff 800000 008000 000080 808000 800080 008080 c0c0c0 808080 9999ff 993366 ffffcc ccffff 660066 ff8080 '
            '0066cc ccccff 000080 ff00ff ffff00 00ffff 800080 800000 008080 0000ff 00ccff ccffff ccffcc ffff99 99ccff ff99cc cc99ff ffcc99 3366ff 33cccc 99cc00 ffcc00 '
            'ff9900 ff6600 666699 969696 003366 339966 003300 333300 993300 993366 333399 333333').split()


def gen(rng, tier, i):
    v = rng.choice([80, 80, 80, 80, 80, 70, 50, 50, 45, 40, 30, 21, 20])
    wb = G.gen_wb(rng, v=v, fmt=True, maxcells=rng.choice([2, 8, 20]), notes=True if rng.random() < 0.5 else None, hlinks=True if rng.random() < 0.4 else None,
                  nsheets=rng.choice([1, 1, 2, 3]))
    for sh in wb['sheets']:
        if sh.get('type', 0) == 0 and rng.random() < 0.3:
            # the order of records that do not depend on each other is the writer's choice
            cells = [it for it in sh['items'] if it[0] in biff.CELL_ITEMS]
            rest = [it for it in sh['items'] if it[0] not in biff.CELL_ITEMS]
            rng.shuffle(rest)
            for it in rest:
                cells.insert(rng.randrange(len(cells) + 1), it)
            sh['items'] = cells
    opts = {'fmt': 1, 'ragged': int(rng.random() < 0.4)}
    c = {'wb': wb, 'opts': opts, 'way': rng.choice(['bytes', 'mmap', 'read'])}
    if rng.random() < 0.4 and v >= 50:
        opts['od'] = 1
        c['order'] = [[rng.randrange(6), int(rng.random() < 0.4)] for _ in range(rng.randrange(1, 8))]
    if rng.random() < 0.2:
        c['plan'] = ole.gen_plan(rng, 5000)
    return c


def run(case):
    out = Out()
    lib.req(case['opts'].get('fmt') and (case['wb']['v'] >= 50 or case['wb'].get('formats')))
    stream, info, exp = lib.model_of(case)
    data, im = lib.image_of(case, stream)
    v = case['wb']['v']
    with world.World() as w:
        bk = lib.open_book(w, data, case['opts'], case['way'])
        out.calls += 1
        for k, un in case.get('order') or ():
            k %= bk.nsheets
            sh = bk.sheet_by_index(k)
            if un:
                bk.unload_sheet(k)
                out.diffs('wrong-result', observe.against_sheet(exp['sheets'][k], observe.obs_sheet(sh, True)), 'sheet %d, loaded out of order' % k)
        if not out.viol:
            lib.check_snapshot(out, exp, bk, True)
        if not out.viol:
            for k, sh in enumerate(bk.sheets()):
                empties(out, exp['sheets'][k], sh, k)
        cm = bk.colour_map
        if v == 80 and not case['wb'].get('palette'):
            for j, c in enumerate(DEFAULT8):
                want = tuple(bytes.fromhex(c))
                if tuple(cm.get(8 + j) or ()) != want:
                    out.bad('palette', 'colour %d without a PALETTE record: %r, expected %r' % (8 + j, cm.get(8 + j), want))
                    break
        if v >= 50 or not case['wb'].get('palette'):
            for j in range(8):
                want = tuple(bytes.fromhex(DEFAULT8[j]))
                if tuple(cm.get(j) or ()) != want:
                    out.bad('palette', 'fixed colour %d: %r' % (j, cm.get(j)))
                    break
        if cm.get(0x7FFF, 0) is not None:
            out.bad('palette', 'colour 0x7FFF: %r' % (cm.get(0x7FFF, 0),))
        if v < 80 and v != 45 and not out.viol:
            for k, sh in enumerate(bk.sheets()):
                if sh.gridline_colour_rgb is not None and any(it[0] in ('win2', 'win2b2') for it in case['wb']['sheets'][k].get('items') or ()) :
                    dist = [(sum((a - b) ** 2 for a, b in zip(sh.gridline_colour_rgb, c)), j) for j, c in cm.items() if c is not None]
                    if (min(dist)[0], sh.gridline_colour_index) not in dist:
                        out.bad('palette', 'sheet %d: grid line colour %r is not near %r' % (k, sh.gridline_colour_index, sh.gridline_colour_rgb))
        for j, x in enumerate(bk.xf_list):
            f = bk.format_map.get(x.format_key)
            if f is None or f.format_key != x.format_key:
                out.bad('format', 'xf %d: format_map[%r] is %r' % (j, x.format_key, f and f.format_key))
                break
        if case['opts'].get('od'):
            bk.release_resources()
        out.world(w)
    kinds = [[it[0] for it in sh.get('items') or ()] for sh in case['wb']['sheets']]
    sheetlevel = set(('row', 'col', 'merge', 'labelranges', 'hpb', 'vpb', 'win2', 'scl', 'pane', 'defrow', 'defcol', 'stdw', 'gcw', 'note', 'notes8', 'hlink',
                      'rowb2', 'colw', 'coldef', 'win2b2'))
    for ks in kinds:
        for k in set(ks) & sheetlevel:
            out.probe(k)
    if any(set(ks) & sheetlevel for ks in kinds):
        out.sig = h(case)
        out.inter = [h(ks) for ks in kinds]
    return out


def empties(out, e, sh, k):
    """cells without a record of their own"""
    if e['nrows'] * e['ncols'] > 20000 or 'xf' not in e:
        return
    r = 0
    for n, times in e['row_len']:
        for _ in range(times):
            for c in range(n):
                if '%d,%d' % (r, c) in e['xf']:
                    continue
                ri = e['rowinfo'].get(str(r))
                ci = e['colinfo'].get(str(c))
                if ri is not None and ri['xf_index'] > -1:
                    want = ri['xf_index']
                elif ci is not None:
                    want = 15 if ci['xf_index'] == -1 else ci['xf_index']
                else:
                    want = 15
                got = sh.cell_xf_index(r, c)
                if got != want or sh.cell(r, c).xf_index != want:
                    out.bad('empty-xf', 'sheet %d, empty cell (%d,%d): xf_index %r, expected %r' % (k, r, c, got, want))
                    return
            r += 1
