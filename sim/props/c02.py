"""C02: splitting text across continuation records never changes it."""
from .. import gen as G, lib, observe, ole, world
from ..lib import Out, h

ID = 'C02'
QUICK, THOROUGH = 12000, 10 ** 7
RULE = ('A random workbook whose strings (shared strings with rich-text runs and phonetic data, string results of formulas, comments) and lists (external '
        'sheet references, old-style comments) a simulated writer breaks into CONTINUE records at seeded places with seeded piece widths, and which is '
        'stored in a seeded container; then opened and compared with what was written. Non-trivial: at least one record boundary fell inside '
        'such a text, run list, phonetic block or list. Distinct: by the workbook, its boundaries and the options.')
MEASURE = 'distinct combinations of what was split (text, width change, surrogate pair, runs, phonetic data, comment, list) and how often'
TECHNIQUE = 'deterministic simulation: seeded write/split histories of a simulated record writer, compared with a reference model'
NOTE = ('Seeded search over the places where a writer may break records and over piece widths; compared code point for code point with the text written. '
        'Sampled; trusts the simulated writer.')


def gen(rng, tier, i):
    v = rng.choice([80] * 8 + [70, 50, 45, 40, 30, 21, 20])
    fmt = int(rng.random() < 0.7)
    mode = rng.choice(['sst', 'fstr', 'notes', 'all', 'all'])
    kw = {}
    if mode in ('notes', 'all'):
        kw['notes'] = 'split'
    if mode in ('fstr', 'all'):
        kw['fstr_plan'] = True
    wb = G.gen_wb(rng, v=v, fmt=fmt or mode == 'notes', maxcells=rng.choice([3, 12, 30]), sst_split=True if v >= 80 else None, names=True if v >= 80 else None,
                  nsheets=rng.choice([1, 1, 2]), min_cells=1, **kw)
    if v >= 80 and wb.get('sst'):
        # every shared string is used by some cell
        sh = next(s for s in wb['sheets'] if s.get('type', 0) == 0)
        used = set(it[4] for s in wb['sheets'] for it in s.get('items', ()) if it[0] == 'sst')
        taken = set()
        from .. import biff
        for it in sh['items']:
            taken |= set((a, b) for a, b, *_ in biff.cells_of(wb, it))
        c = 0
        for k in range(len(wb['sst'])):
            if k not in used:
                while (40, c) in taken:
                    c += 1
                sh['items'].append(['sst', 40, c, 0, k])
                c += 1
    if v >= 80 and wb.get('sst') and rng.random() < 0.003:
        wb['sst_fill'] = rng.choice([32767, 65535, 66000])
    plan = ole.gen_plan(rng, 4000) if rng.random() < 0.25 else None
    return {'wb': wb, 'plan': plan, 'opts': lib.gen_opts(rng, fmt=fmt)}


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    data, _ = lib.image_of(case, stream)
    fmt = bool(case['opts'].get('fmt'))
    with world.World() as w:
        try:
            bk = lib.open_book(w, data, case['opts'])
            out.calls += 1
            lib.check_snapshot(out, exp, bk, fmt)
            if case['opts'].get('od'):
                bk.release_resources()
        except Exception as e:
            lib.guard(e)
            out.bad('refused', 'opening raised %s at %s' % (lib.show(e), lib.where(e)))
    st = {k: v for k, v in info['stats'].items() if k != 'sst_records' and v}
    if st:
        out.sig = h(case)
        out.inter = h({k: min(int(v), 6) for k, v in st.items()})
        out.stats(st)
    return out
